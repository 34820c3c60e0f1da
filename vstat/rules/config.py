"""Storage configuration and configuration round trips (C08, C09)."""
from .base import *
from .portals import portal_classes
import ast


def ctor_params(f):
    pos, kwo = f.params()[0], f.params()[1] if len(f.params()) > 1 else []
    out = [x for x in pos if x != "self"]
    a = f.node.args
    out += [x.arg for x in a.kwonlyargs if x.arg not in out]
    return out


def is_test(f):
    return "_000_tests" in f.mod.name or "OLD" in f.mod.name or "tests" in f.mod.name.split(".")


@rule("C08", "params", "the parameters a portal reports are those its constructor takes")
def c08(ctx):
    n = 0
    for c in portal_classes(ctx):
        i, g = c.find("__init__"), c.find("get_params")
        if i is None or g is None:
            ctx.check(c.name, False, c.loc(), "no get_params")
            continue
        want = ctor_params(i)
        if not want:
            continue        # a singleton that takes no configuration
        pg = ctx.run(g, cls=c, exc="none", inline=("get_params",))
        n += 1

        def keys(p):
            if p.kind != "return":
                return "raises"
            d = dict_parts(p.value)
            if d is None or d[1]:
                return None
            miss = [x for x in want if x not in d[0]]
            if miss:
                return f"{c.name} does not report its parameter {miss[0]}: a copy of the portal gets the default"
            more = [x for x in d[0] if x not in want]
            if more and not i.node.args.kwarg:
                return f"{c.name} reports {more[0]}, which its constructor does not accept"
            for k, v in d[0].items():
                if is_c(v):
                    return f"{k} is reported as the constant {tstr(v)}"
                nm = v[2] if v[0] == "attr" else None
                if nm is not None and nm.lstrip("_") != k and nm.lstrip("_") in want:
                    return f"{k} is reported as {nm}"
            return True
        ctx.forall(f"{c.name}.get_params", pg, keys, "every constructor parameter is reported", need=1)
        # what is reported is what the constructor was given
        pi = ctx.run(i, cls=c, exc="none", inline=("__init__",), default="private",
                     opaque=("ParameterizableClass.__init__", "FirstEntryDict.__init__",
                             "OverlappingMultiDict.__init__", "register_systemwide_uncaught_exception_handlers"))

        def kept(p):
            if p.kind != "return":
                return True
            d = [x for x in (dict_parts(q.value) for q in pg.returns()) if x]
            if not d:
                return None
            final = {}
            for e in events(p):
                if e.kind == "setattr" and e.recv == SELF:
                    final[e.name] = e.args["value"]
            for k, v in d[0][0].items():
                if v[0] != "attr" or v[1] != SELF:
                    continue
                fv = final.get(v[2], final.get("_" + v[2]))
                if fv is None:
                    if "_" + v[2] not in final and v[2] not in final:
                        return f"{k} is reported from an attribute the constructor does not set"
                    continue
                if contains(fv, sym(k)):
                    if k == "root_dict" or fv == sym(k) or fn_name(fv) in ("int", "str", "float", "bool"):
                        continue
                    return f"{k} is not kept as given ({tstr(fv)})" if fv[0] == "op" else None
                # default substituted only when nothing was given
                given = [b for t, b, _ in p.guards if t == ("isnone", sym(k))]
                if True in given:
                    continue
                if fv in (("c", "int", 0), ("c", "bool", False), ("c", "str", "")) and any(
                        g == ("truthy", sym(k)) and not b for g, b, _ in p.guards):
                    continue        # nothing or the same was given
                if k == "root_dict":
                    if any(contains(a, sym(k)) for e in events(p) for a in e.args.values()):
                        continue
                if is_c(fv):
                    return f"the parameter {k} is replaced by {tstr(fv)}"
                if any(x[0] == "sym" and x[1] in want and x[1] != k for x in terms(fv)):
                    return f"{k} is taken from another parameter"
                return None
            return True
        ctx.forall(f"{c.name}.__init__ keeps", pi, kept, "parameters are kept as given", need=1)
        # passed on to the base constructor
        sup = [k for k in c.mro[1:] if isinstance(k, ClassInfo) and "__init__" in k.methods]
        if i.cls is c and sup and any(getattr(k, "name", "") == "BasicPortal" for k in sup):
            b = sup[0].methods["__init__"]
            bw = ctor_params(b)
            po = ctx.run(i, cls=c, exc="none", opaque=(b.qual,))

            def passes(p):
                if p.kind != "return":
                    return True
                cs = [e for e in events(p) if e.kind == "call" and e.name == b.qual]
                if not cs:
                    return f"{c.name} does not initialise {sup[0].name}"
                for x in bw:
                    if x in want:
                        v = cs[0].args.get(x)
                        if v is None or v != sym(x):
                            if v is not None and contains(v, sym(x)):
                                return None
                            return f"the parameter {x} is not passed on to {sup[0].name}"
                return True
            ctx.forall(f"{c.name} passes on", po, passes, "parameters reach the base class", need=1)
    ctx.check("portal classes", True if n >= 5 else None, "pythagoras", f"{n} portal classes", n)


SAMPLES = {
    "p_consistency_checks": [None, 0, 0.004, 0.123456, 0.5, 1],
    "default_island_name": ["Samos", " Xy z "],
    "n_background_workers": [0, 1, 5, 1000],
    "runtime_id": [None, "abc"],
}
GIVEN = {"p_consistency_checks": 0.5, "default_island_name": "Q", "n_background_workers": 2, "runtime_id": "r", "root_dict": "d"}


@rule("C08", "values", "what is reported is what was given, whatever that was")
def c08_values(ctx):
    for c in portal_classes(ctx):
        i, g = c.find("__init__"), c.find("get_params")
        if i is None or g is None or not ctor_params(i):
            continue
        want = ctor_params(i)
        pg = ctx.run(g, cls=c, exc="none", inline=("get_params",))
        pi = ctx.run(i, cls=c, exc="none", inline=("__init__",), default="private",
                     opaque=("ParameterizableClass.__init__", "FirstEntryDict.__init__",
                             "OverlappingMultiDict.__init__", "register_systemwide_uncaught_exception_handlers"))
        finals = {}
        for p in pi.returns():
            d = {}
            for e in events(p):
                if e.kind == "setattr" and e.recv == SELF:
                    d[e.name] = e.args["value"]
            finals[id(p)] = d

        def given(world):
            def atom(t):
                return world[t[1]] if t[0] == "sym" and t[1] in world else UNK
            return atom

        def attrs(p, world, of=None):
            at, d = given(world), finals[id(p)]

            def atom(t):
                t = unver(t)
                if t[0] == "attr" and t[1] == SELF:
                    n = t[2] if t[2] in d else "_" + t[2]
                    if n in d:
                        return teval(d[n], at)
                if t[0] == "prop" or (t[0] == "call" and t[1][0] == "prop"):
                    return UNK
                return at(t)
            return atom
        for k in want:
            for val in SAMPLES.get(k, ()):
                world = {**GIVEN, k: val}
                cand = [p for p in pi.returns() if consistent(p, given(world))]
                lab = f"{c.name}: {k}={val!r}"

                def same(p, k=k, val=val, world=world):
                    at = attrs(p, world)
                    for q in pg.returns():
                        if not consistent(q, at):
                            continue
                        d = dict_parts(q.value)
                        if d is None:
                            return None
                        if k not in d[0]:
                            return None if d[1] else f"{k} is not reported"
                        v = teval(d[0][k], at)
                        if v is UNK:
                            if val is None and k == "runtime_id":
                                continue
                            src = [n for t in terms(d[0][k]) if t[0] == "attr" and t[1] == SELF
                                   for n in (t[2], "_" + t[2]) if n in finals[id(p)]]
                            if src and not any(contains(finals[id(p)][n], sym(k)) for n in src):
                                return f"{k} is reported from {src[0]}, which is something else"
                            if val is not None and has_call(d[0][k], "next", "min", "max", "sorted") and any(
                                    t[0] == "attr" and t[1] == SELF and t[2] in finals[id(p)] and not contains(finals[id(p)][t[2]], sym(k))
                                    for t in terms(d[0][k])):
                                return f"{k} is reported from something else, sometimes"
                            return None
                        if val is None:
                            if k == "p_consistency_checks" and v not in (0, None):
                                return f"without {k}, {v!r} is reported"
                            continue
                        if type(v) is not type(val) and isinstance(v, str) != isinstance(val, str) or v != val:
                            return f"{k}={val!r} is reported as {v!r}"
                    return True
                ctx.forall(lab, pi, same, "reported as given", paths=cand, need=0)
                if not cand:
                    ctx.check(lab, False if not any(p.imprecise for p in pi) else None, i.loc(), f"{k}={val!r} is refused")
        # the storage
        if c.name != "BasicPortal":
            continue

        def root(p):
            v = finals[id(p)].get("root_dict")
            if v is None:
                return None
            for q in pg.returns():
                d = dict_parts(q.value)
                r = d[0].get("root_dict") if d else None
                if r is None:
                    return None
                if r != ("attr", SELF, "root_dict"):
                    return "the storage is reported as a part of it" if r[0] == "attr" and contains(
                        r, ("attr", SELF, "root_dict")) or fn_name(r) in ("get_subdict", "str", "get_params", "repr") and contains(
                        r, ("attr", SELF, "root_dict")) else None
            own = [b for t, b, _ in p.guards if t[0] == "isinstance" and t[1] == sym("root_dict")]
            none = [b for t, b, _ in p.guards if t == ("isnone", sym("root_dict"))]
            dirs = [call_arg(t, "base_dir", 0) for t in terms(v) if t[0] == "call" and fn_name(t) == "FileDirDict"]
            if True in own:
                if v[0] == "call" and v[1][0] in ("ext", "cls"):
                    return "the storage is replaced by one of another type"
                return not dirs or "the storage is replaced by one in a directory"
            if True in none:
                return True if dirs and all(has_call(x, "default_base_dir") for x in dirs if x is not None) else None
            for x in dirs:
                if x is None:
                    return None
                for nm in ("Some/ Dir", "", "x"):
                    at = given({"root_dict": nm})
                    if not consistent(p, at):
                        continue
                    w = teval(x, at)
                    if w is UNK:
                        if not contains(x, sym("root_dict")):
                            return "the storage is in another directory than the one given"
                        return None
                    if w != nm:
                        return "the storage is in another directory than the one given"
            return True if dirs else None
        ctx.forall("BasicPortal: root_dict", pi, root, "the storage given is used and reported", sel=lambda p: p.kind == "return",
                   need=3)


# ------------------------------------------------------------------- stores
def store_params(p, v, depth=0):
    """(kind, subdict name, parameters, raw) of the storage object v on path p, or None."""
    evs = events(p)
    first = False
    for _ in range(4):
        src = [e for e in evs if e.res == v and e.kind == "call"]
        if fn_name(v) == "FirstEntryDict" and src:
            first = src[-1].args.get("wrapped_dict") or src[-1].args.get("0")
            checks = src[-1].args.get("p_consistency_checks")
            if first is None:
                return None
            r = store_params(p, first, depth + 1)
            return None if r is None else dict(r, first=True, checks=checks)
        if fn_name(v) == "OverlappingMultiDict" and src:
            a = src[-1].args
            ind = dict_parts(a.get("individual_subdicts_params", NONE))
            sub = subdict_name(p, a.get("shared_subdicts_params", NONE))
            if ind is None or ind[1]:
                return None
            kinds = {}
            for k, x in ind[0].items():
                d = dict_parts(x)
                if d is None or d[1]:
                    return None
                kinds[k] = d[0]
            return dict(multi=kinds, sub=sub)
        if src and src[-1].args.get("**") is not None or (src and src[-1].args):
            kv, mer = {}, []
            for k, x in src[-1].args.items():
                if k == "**":
                    d = dict_parts(x) or ({}, [x])
                    mer += d[1]
                    kv.update(d[0])
                else:
                    kv[k] = x
            sub = None
            for m in mer:
                sub = sub or subdict_name(p, m)
                for e in evs:
                    if e is src[-1]:
                        break
                    if e.kind == "call" and last(e) == "update" and e.recv == m:
                        for k, x in e.args.items():
                            if k in ("0", "**"):
                                d = dict_parts(x)
                                if d is None:
                                    return None
                                kv.update(d[0])
                            else:
                                kv[k] = x
                    if e.kind == "setitem" and e.recv == m and is_c(e.args["key"]):
                        kv[e.args["key"][2]] = e.args["value"]
            return dict(params=kv, sub=sub, of=mer)
        return None
    return None


def subdict_name(p, t):
    for x in terms(t):
        if fn_name(x) == "get_subdict":
            a = list(x[2])[1:] if x[1][0] in ("fn",) else list(x[2])
            for y in a + [v for _, v in x[3]]:
                if is_c(y) and isinstance(y[2], str):
                    return y[2]
    return None


WANT = {
    ("DataPortal", "value_store"): dict(first=True, immutable_items=True, file_type="pkl", digest_len=0),
    ("PureCodePortal", "execution_results"): dict(first=True, immutable_items=True, file_type="pkl"),
    ("PureCodePortal", "execution_requests"): dict(immutable_items=False, file_type="pkl"),
    ("LoggingPortal", "crash_history"): dict(immutable_items=True, file_type="json", digest_len=0),
    ("LoggingPortal", "event_log"): dict(immutable_items=True, file_type="json", digest_len=0),
}
MULTI = {
    ("PureCodePortal", "run_history"): dict(json=True, txt=True, pkl=True, py=False),
    ("SwarmingPortal", "compute_nodes"): dict(json=False, pkl=False),
}


@rule("C09", "config", "what is recorded once can not be overwritten; what must change can")
def c09(ctx):
    subs = {}
    for (cn, attr), want in list(WANT.items()) + list(MULTI.items()):
        c = ctx.P.cls(cn)
        i = c.find("__init__")
        sup = [k.methods["__init__"].qual for k in c.mro[1:] if isinstance(k, ClassInfo) and "__init__" in k.methods]
        ps = ctx.run(i, cls=c, exc="none", opaque=tuple(sup[:1]) + ("SwarmingPortal._launch_background_worker",))
        multi = (cn, attr) in MULTI

        def cfg(p, want=want, attr=attr, multi=multi, cn=cn):
            if p.kind != "return":
                return True
            w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == attr]
            if not w:
                return f"{attr} is not created"
            r = store_params(p, w[-1].args["value"])
            if r is None:
                return None
            if r.get("sub"):
                subs.setdefault(r["sub"], set()).add(attr)
            if multi:
                if "multi" not in r:
                    return None
                for k, imm in want.items():
                    if k not in r["multi"]:
                        return f"{attr} has no {k} part"
                    v = r["multi"][k].get("immutable_items", FALSE)
                    if v not in (TRUE, FALSE):
                        return None
                    if (v == TRUE) != imm:
                        return (f"records in {attr}.{k} can be overwritten" if imm else
                                f"{attr}.{k} can not be updated")
                return True
            if "params" not in r:
                return None
            if not r.get("sub") and r.get("of") and all(
                    fn_name(x) == "get_params" and x[1][0] == "attr" and x[1][1] == ("attr", SELF, "root_dict") for x in r["of"]) \
                    and not any(k in r["params"] for k in ("base_dir", "dir_name")):
                return f"{attr} has no place of its own under the root"
            if want.get("first") and not r.get("first"):
                return f"{attr} does not keep the first value written"
            for k, v in want.items():
                if k == "first":
                    continue
                x = r["params"].get(k)
                if x is None:
                    if k == "digest_len":
                        continue        # inherited from the root
                    if k == "immutable_items" and v is False:
                        return None
                    return f"{attr} does not set {k}"
                if not is_c(x):
                    for n in (None, 0, 1, 0.5, "", "x"):
                        at = lambda t: n if t[0] == "sym" and t != SELF else UNK
                        got = teval(x, at)
                        if got is not UNK and got != v and consistent(p, at):
                            return f"{attr} has {k}={got!r} when the portal is created with {n!r}"
                    return None
                if x[2] != v:
                    return {"immutable_items": f"{attr} is {'mutable' if v else 'immutable'}",
                            "digest_len": f"keys of {attr} get a digest suffix, so addresses read back differ",
                            }.get(k, f"{attr} is stored as {x[2]!r}")
            return True
        ctx.forall(f"{cn}.{attr}", ps, cfg, "storage configured as required", need=1)
    dup = {s: a for s, a in subs.items() if len(a) > 1}
    ctx.check("own subdirectories", (not dup) if len(subs) >= 5 else None, "pythagoras",
              f"two stores share a subdirectory: {dup}" if dup else
              f"{len(subs)} stores in subdirectories of their own", len(subs))


@rule("C09", "root", "keys are stored exactly as given, whatever the root was configured with")
def c09_root(ctx):
    c = ctx.P.cls("BasicPortal")
    ps = ctx.run(c.find("__init__"), cls=c, exc="none")

    def ok(p):
        if p.kind != "return":
            return True
        w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "root_dict"]
        if not w:
            return "no root dictionary"
        v = w[-1].args["value"]
        if v == sym("root_dict"):
            return "the root dictionary keeps the digest length it came with, so keys read back differ"
        r = store_params(p, v)
        if r is None or "params" not in r:
            return None
        x = r["params"].get("digest_len")
        if x is None:
            return "the root dictionary keeps the digest length it came with, so keys read back differ"
        return True if x == C(0) else None if not is_c(x) else "the root dictionary adds a digest to keys"
    ctx.forall("root", ps, ok, "no digests in keys", need=1)


def merge_order(t):
    """(key or None, value/mapping) of a merged mapping, first to last."""
    if t[0] in ("dict", "tuple"):
        for x in t[1]:
            if x[0] == "kv":
                yield x[1], x[2]
            elif x[0] == "**":
                yield from merge_order(x[1])
            else:
                yield from merge_order(x)
    elif t[0] == "op" and t[1] == "|":
        yield from merge_order(t[2])
        yield from merge_order(t[3])
    elif t[0] == "call" and t[1] == ("ext", "dict"):
        for x in t[2]:
            yield from merge_order(x)
        for k, v in t[3]:
            if k == "**":
                yield from merge_order(v)
            else:
                yield C(k), v
    else:
        yield None, t


@rule("C09", "multi", "every part of a multi dictionary gets its own parameters on top of the shared ones")
def c09_multi(ctx):
    f = ctx.P.func("OverlappingMultiDict.__init__")
    ps = ctx.run(f, exc="none")
    kw = f.node.args.kwarg.arg if f.node.args.kwarg else None

    def ok(p):
        if p.kind != "return":
            return True
        for e in events(p):
            if e.kind == "call" and "**" in e.args:
                d = e.args["**"]
                order = []
                for k, y in merge_order(d):
                    if k is not None:
                        if k == C("file_type"):
                            order.append("type")
                        elif "own" in order:
                            return f"the individual parameter {tstr(k)} is ignored"
                        continue
                    order.append("shared" if y == sym("shared_subdicts_params") else
                                 "own" if kw and contains(y, sym(kw)) else "?")
                fixed = [k for k in e.args if k not in ("**", "file_type") and not k.isdigit()]
                if "own" in order and fixed:
                    return f"the individual parameter {fixed[0]} is ignored"
                if "?" in order:
                    return None
                if "own" not in order:
                    return "the individual parameters are ignored"
                if "shared" not in order:
                    return "the shared parameters are ignored"
                if order.index("own") < order.index("shared"):
                    return "the shared parameters override the individual ones"
                if "type" not in order and "file_type" not in e.args:
                    if any(x.kind in ("setitem", "mutate") and x.recv == d for x in events(p)):
                        return None
                    return "the parts do not get their file type"
                return True
        return None
    ctx.forall("parts", ps, ok, "individual parameters win", need=1)


WRITE_ONCE = {"value_store", "execution_results", "crash_history", "event_log", "run_history"}
DELETERS = {"delete_if_exists", "clear", "pop", "popitem", "discard", "rmtree_subdict", "delete"}
MAY_DELETE = {
    "execution_requests": {"PureFnExecutionResultAddr.drop_execution_request",
                           "PureFnExecutionResultAddr.request_execution"},
}


@rule("C09", "deletes", "nothing recorded is ever deleted")
def c09_del(ctx):
    n = 0
    names = WRITE_ONCE | {"_wrapped_dict"}
    for f in ctx.P.all_functions():
        if is_test(f):
            continue
        cand = False
        for x in ast.walk(f.node):
            if isinstance(x, ast.Delete) and any(isinstance(t, ast.Subscript) for t in x.targets):
                cand = True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in DELETERS:
                cand = True
        if not cand:
            continue
        n += 1
        ps = ctx.run(f, cls=f.cls, exc="none")

        def clean(p):
            made = {}
            for e in events(p):
                if e.recv is None:
                    continue
                if e.kind == "setattr" and e.recv == SELF and e.name in names:
                    made[unver(e.args["value"])] = e.name
                if e.kind == "call" and last(e) in DELETERS and unver(e.recv) in made:
                    return f"{f.qual} deletes entries of {made[unver(e.recv)]}"
                if e.kind == "delitem" or (e.kind == "call" and last(e) in DELETERS):
                    r = e.recv
                    hit = [y[2] for y in terms(r) if y[0] == "attr" and y[2] in names]
                    hit += [fn_name(y) for y in terms(r) if fn_name(y) in (
                        "execution_attempts", "execution_outputs", "crashes", "events")]
                    if hit:
                        return f"{f.qual} deletes entries of {hit[0]}"
            return True
        ctx.forall(f"{f.qual}", ps, clean, "deletes nothing recorded")
    # FirstEntryDict offers no way to delete
    c = ctx.P.cls("FirstEntryDict")
    for m in ("__delitem__", "delete_if_exists", "clear", "pop"):
        f = c.methods.get(m)
        if f is None:
            continue
        ps = ctx.run(f, cls=c, exc="none")
        ctx.forall(f"FirstEntryDict.{m}", ps, lambda p: not any(
            e.kind == "delitem" or last(e) in DELETERS for e in events(p)) or
            "entries of a write-once dictionary can be deleted", "no deletion")
    ctx.check("deleting functions", True if n else None, "pythagoras", f"{n} functions delete something", n)
    # stores are created once: no other code replaces them
    for f in ctx.P.all_functions():
        if is_test(f) or all(
                h.name in ("__init__", "_clear", "_clear_all") for h in homes(ctx, f, ("_clear", "_clear_all"))):
            continue
        for x in ast.walk(f.node):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(
                x, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr in (WRITE_ONCE | {"execution_requests"}):
                    ctx.check(f"{f.qual} replaces {t.attr}", False if not f.name.startswith("_") else None,
                              f.loc(x), f"{f.qual} replaces the store {t.attr}")
