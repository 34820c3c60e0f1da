"""Addresses, stored values, pickling of portal-aware objects (C07, C11-C15)."""
from .base import *
import ast

PORTAL_SELF = (("attr", SELF, "portal"), ("attr", SELF, "_portal"))


def is_self_portal(t):
    return t in PORTAL_SELF


def aware_classes(ctx):
    return sorted(ctx.P.subclasses(ctx.P.cls("PortalAwareClass")), key=lambda c: (len(c.mro), c.name))


def addr_classes(ctx):
    return [c for c in sorted(ctx.P.subclasses(ctx.P.cls("HashAddr")), key=lambda c: c.name)
            if c.name != "HashAddr"]


def stacked(evs, stack=()):
    """(event, portals entered at that moment) through loops."""
    stack = list(stack)
    for e in evs:
        if e.kind == "loop":
            yield e, tuple(stack)
            for k, xs, gs in e.x["iters"]:
                yield from stacked(xs, stack)
            continue
        if e.kind == "with_exit" and e.recv in stack:
            i = len(stack) - 1 - stack[::-1].index(e.recv)
            del stack[i]
        yield e, tuple(stack)
        if e.kind == "with_enter" and not failed(e):
            stack.append(e.recv)


def normal_dict(t):
    """dict_parts, also for a dict rebuilt by copying every entry of another."""
    d = dict_parts(t)
    if d is not None:
        return d
    if t[0] == "dict" and len(t[1]) == 1 and t[1][0][0] == "kveach":
        x = t[1][0]
        k, v = x[1], x[2]
        if k[0] == "elem":
            src = strip_wrappers(k[1])
            if fn_name(src) == "keys" and src[1][0] in ("attr", "cellattr"):
                src = src[1][1]
            if v[0] == "item" and v[2] == k and v[1] == src:
                return normal_dict(src)
        if k[0] == "item" and k[1][0] == "elem" and k[2] == C(0) and v == ("item", k[1], C(1)):
            src = strip_wrappers(k[1][1])
            if fn_name(src) == "items" and src[1][0] in ("attr", "cellattr"):
                return normal_dict(src[1][1])
    return None


# ------------------------------------------------------------------- pickling
def raising(ps):
    return ps.paths is not None and ps.paths and all(p.kind == "raise" for p in ps.paths)


CACHES = {"_ready", "_value", "_result", "_function", "_arguments", "_fn_bytecode", "call_stack"}


def cache_attrs(ctx, c):
    """attributes deleted by _invalidate_cache (plus those known to be caches)"""
    out = set(CACHES)
    f = c.find("_invalidate_cache")
    if f is not None:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Delete):
                for t in x.targets:
                    if isinstance(t, ast.Attribute):
                        out.add(t.attr)
    return out


@rule("C07", "state", "the pickled state names no portal and no cached value, and is all that loading needs")
def c07(ctx):
    n = 0
    for c in aware_classes(ctx):
        g, s = c.find("__getstate__"), c.find("__setstate__")
        if g is None or s is None:
            ctx.check(f"{c.name}", False, c.loc(), "no __getstate__/__setstate__")
            continue
        if g.cls.name == "PortalAwareClass" or g.cls.name == "OrdinaryFn":
            ps = ctx.run(g, cls=c, exc="none")
            ctx.forall(f"{c.name}.__getstate__ refuses", ps, lambda p: p.kind == "raise" or
                       f"{c.name} without a pickling protocol of its own can be pickled", "refuses", need=1)
            continue
        ps = ctx.run(g, cls=c, exc="none", opaque=("AutonomousFn._complete_fn_registration",
                                                    "PureFn._complete_fn_registration"))
        if raising(ps):
            ctx.check(f"{c.name}.__getstate__", True, g.loc(), "refuses")
            continue
        n += 1
        states = []
        cache = cache_attrs(ctx, c)

        def state(p):
            if p.kind != "return":
                return True
            d = normal_dict(p.value)
            if d is None:
                if any(is_attr(x, "__dict__") for x in terms(p.value)):
                    return "the whole __dict__ is pickled, including the portal"
                return None
            if d[1]:
                return "the whole __dict__ is pickled" if any(has_attr(x, "__dict__") for x in d[1]) else None
            for k, v in d[0].items():
                if is_self_portal(v) or k in ("_portal", "portal") or \
                        any(is_self_portal(x) for x in terms(v)):
                    return f"the portal is pickled as {k}"
                if is_attr(v, v[2] if len(v) > 2 else None, SELF) and v[2] in cache:
                    return f"the cached {v[2]} is pickled"
                if k in cache:
                    return f"cached data is pickled as {k}"
                for x in terms(v):
                    if x[0] == "attr" and x[1] == SELF and x[2] in cache and v[0] in ("op", "tuple", "list", "dict", "cat"):
                        return f"the cached {x[2]} is pickled as a part of {k}"
            if d[0] not in states:
                states.append(d[0])
            return True
        ctx.forall(f"{c.name}.__getstate__", ps, state, "no portal, no caches", need=1)
        if not states:
            continue
        st = states[0]
        load(ctx, c, s, st, cache)
    ctx.check("classes", True if n >= 4 else None, "pythagoras", f"{n} portal-aware classes can be pickled", n)


ALIASES = {"augmented_fn_source_code": "_augmented_source_code"}


def load(ctx, c, s, st, cache):
    pn = s.params()[0][1]
    ps = ctx.run(s, cls=c, exc="none", opaque=("AutonomousFn._complete_fn_registration",
                                                "PureFn._complete_fn_registration",
                                                "AutonomousFn._begin_fn_registration",
                                                "PureFn._begin_fn_registration"))
    mapping = {k: ("V", k) for k in st}

    def atom(t, v=None):
        if t == sym(pn):
            return mapping
        if t == ("call", ("ext", "len"), (sym(pn),), ()) or (fn_name(t) == "len" and t[2] == (sym(pn),)):
            return len(mapping)
        if t[0] == "typeof" and t[1] == SELF:
            return ("CLS", c.name)
        if t[0] == "cls":
            return ("CLS", t[1])
        if is_state_item(t, pn) and is_c(t[2]):
            v = st.get(t[2][2])
            if v is not None and is_c(v):
                return v[2]
        return UNK

    def loads(p):
        if p.kind != "return":
            what = p.value
            if consistent(p, atom):
                g = [c_ for c_, b, _ in p.guards]
                t = tstr(g[-1]) if g else ""
                if any(is_state_item(x, pn) and x[2][0] == "c" and x[2][2] not in st
                       for gg in g for x in terms(gg)):
                    return "a state stored by __getstate__ is refused"
                # refusing depends on something outside the state
                if all(teval(gg, atom) is not UNK for gg in g):
                    return f"__setstate__ refuses the state __getstate__ produces ({t})"
            return True
        if not consistent(p, atom):
            return True
        read = set()
        for e in events(p):
            if e.kind == "getitem" and e.recv == sym(pn) and is_c(e.args["key"]):
                read.add(e.args["key"][2])
        miss = read - set(st)
        if miss:
            return f"__setstate__ reads {sorted(miss)}, which __getstate__ does not store"
        final = {}
        for e in events(p):
            if e.kind == "setattr" and e.recv == SELF:
                final[e.name] = e.args["value"]
        for l in loops(p.events):
            if l.x["iter"] is None or not contains(unver(l.x["iter"]), sym(pn)):
                continue
            # attributes that are set one by one, whatever they are called
            for k in st:
                def named(t, k=k):
                    t = unver(t)
                    return k if t[0] == "elem" and contains(t, sym(pn)) else atom(t)
                took = []
                for kind, xs, gs in l.x["iters"]:
                    vs = [(teval(g[0], named), g[1]) for g in gs]
                    if any(v is not UNK and bool(v) != b for v, b in vs):
                        continue
                    if any(v is UNK for v, _ in vs) or kind != "next":
                        return None
                    took.append(xs)
                for xs in took:
                    for e in xs:
                        if e.kind == "call" and e.name.split(".")[-1] == "setattr" and e.args.get("0") == SELF \
                                and len(took) == 1 and teval(e.args["1"], named) == k:
                            v = unver(e.args["2"])
                            if v[0] == "item" and v[1] == sym(pn) and v[2][0] == "elem":
                                v = ("item", sym(pn), C(k))
                            final[k] = v
        for k, v in st.items():
            if is_c(v) or v[0] == "attr":
                continue
            for x in terms(v):
                if isinstance(x, tuple) and x[:1] == ("item",) and len(x) > 2 and isinstance(x[2], tuple) and \
                        x[2][:1] == ("slice",) and any(y != NONE for y in x[2][1:4] if y is not None) and \
                        x[1][:2] == ("attr", SELF):
                    return f"only a part of {x[1][2]} is stored"
        for k, v in st.items():
            a = v[2] if is_attr(v, v[2] if len(v) > 2 else None, SELF) else None
            if a is None:
                continue
            a = ALIASES.get(a, a)
            if a in final and a not in ALIASES.values():
                fv = final[a]
                if not (is_state_item(fv, pn) and fv[2] == C(k)) and \
                        not (fn_name(fv) == "get" and call_arg(fv, "0", 0) == C(k)):
                    if is_state_item(fv, pn):
                        return f"{a} is restored from {tstr(fv[2])} but stored as {k!r}"
                    if any(t[0] == "call" and t[1][0] == "attr" and t[1][2] in (
                            "lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "capitalize", "replace") for t in terms(fv)):
                        return f"{a} is altered when the object is loaded"
                    known = is_c(fv) or not any(x == sym(pn) or x[0] in ("mu", "unknown", "elem", "any", "sym") and x != SELF for x in terms(fv))
                    return f"{a} is not restored from the state" if known else None
            elif a not in final and a not in ALIASES.values() and not any(
                    e.kind == "call" and sym(pn) in e.args.values() for e in events(p)):
                return f"{a} is stored but not restored"
            elif a in ALIASES.values() and k not in read:
                return f"{k} is stored but not used"
        # portal
        ev = events(p)
        cap = [i for i, e in enumerate(ev) if e.kind == "call" and last(e) == "capture_portal" and e.recv == SELF]
        sets = [(i, e) for i, e in enumerate(ev) if e.kind == "setattr" and e.recv == SELF and e.name == "_portal"]
        for i, e in sets:
            v = e.args["value"]
            if any(x == sym(pn) for x in terms(v)):
                return "the portal is restored from the pickled state"
        if not cap:
            ok = [e for i, e in sets if fn_name(e.args["value"]) in (
                "_most_recently_entered_portal", "get_most_recently_entered_portal", "get_best_portal_to_use")
                or (e.args["value"][0] == "item" and has_attr(e.args["value"], "entered_portals_stack"))]
            lazy = sets and sets[-1][1].args["value"] == NONE
            if not ok and not lazy:
                return "the loaded object is not bound to the current portal"
            if lazy:
                return "the loaded object is bound to a portal only when it is first used, not when it is loaded"
        elif sets and sets[-1][0] > cap[-1] and sets[-1][1].args["value"] == NONE:
            return "the captured portal is dropped again"
        for e in ev:
            if e.kind == "setattr" and e.recv == SELF and e.name in cache and e.name != "call_stack":
                return f"loading sets the cache {e.name}"
        return True
    ctx.forall(f"{c.name}.__setstate__", ps, loads, "restores exactly what was stored, in the current portal", need=1)
    ctx.exists(f"{c.name}.__setstate__ accepts", ps,
               lambda p: p.kind == "return" and (consistent(p, atom)),
               "the state __getstate__ produces is accepted")


def is_state_item(t, pn):
    return len(t) > 2 and t[0] == "item" and t[1] == sym(pn)


@rule("C07", "capture", "capturing binds to the innermost entered portal")
def c07_capture(ctx):
    f = ctx.P.func("PortalAwareClass.capture_portal")
    ps = ctx.run(f, exc="none")

    def ok(p):
        if p.kind != "return":
            return True
        w = [e for e in events(p) if e.kind == "setattr" and e.name == "_portal"]
        if not w:
            return "no portal is captured"
        v = w[-1].args["value"]
        if v == NONE:
            return any(not b and t[0] == "truthy" and has_attr(t, "entered_portals_stack")
                       for t, b, _ in p.guards) or "no portal is captured although one is current"
        if fn_name(v) in ("_most_recently_entered_portal", "get_most_recently_entered_portal"):
            return True
        if fn_name(v) == "get_best_portal_to_use":
            a = [x for x in list(v[2]) + [y for _, y in v[3]] if x != NONE]
            return not a or fn_name(a[0]) in ("_most_recently_entered_portal", "get_most_recently_entered_portal") or \
                "captures another portal than the innermost one"
        if v[0] == "item" and has_attr(v, "entered_portals_stack"):
            return v[2] == C(-1) or "captures a portal that is not the innermost one"
        if fn_name(v) == "get_most_recently_added_portal":
            return "captures the newest portal instead of the current one"
        return None
    ctx.forall("capture_portal", ps, ok, "captures the current portal", need=1)
    f = ctx.P.func("PortalAwareClass.__copy__")
    ps = ctx.run(f, exc="none")

    def cp(p):
        if p.kind != "return":
            return None
        if p.value == SELF:
            return "copy returns the object itself"
        if any(is_attr(x, "__dict__") for e in events(p) for a in list(e.args.values()) for x in terms(a)
              ):
            return "the copy shares the portal and the caches of the original"
        if any(e.kind == "call" and last(e) == "__setstate__" for e in events(p)):
            return True
        return None
    ctx.forall("__copy__", ps, cp, "copies by state", need=1)
    # the caches of an address must be droppable: nothing survives _invalidate_cache
    for c in addr_classes(ctx):
        f = c.find("_invalidate_cache")
        if f is None:
            continue
        ps = ctx.run(f, cls=c, exc="none")
        names = set()
        for m in c.methods.values():
            for x in ast.walk(m.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "hasattr" and \
                        len(x.args) == 2 and isinstance(x.args[0], ast.Name) and x.args[0].id == "self" and \
                        isinstance(x.args[1], ast.Constant) and m.name not in ("_invalidate_cache",):
                    names.add(x.args[1].value)
        names -= {"_portal"}

        def drops(p):
            if p.kind != "return":
                return None
            gone = {e.name for e in events(p) if e.kind == "delattr" and e.recv == SELF}
            gone |= {e.args["0"][2] for e in events(p) if e.kind == "call" and last(e) in ("pop", "__delattr__")
                     and is_c(e.args.get("0", NONE))}
            for nm in names:
                if nm in gone:
                    continue
                if any(t == ("hasattr", SELF, nm) and not b for t, b, _ in p.guards):
                    continue
                if any(contains(t, ("hasattr", SELF, nm)) for t, b, _ in p.guards) or \
                        any(e.kind == "loop" for e in p.events):
                    return None
                return f"the cache {nm} survives _invalidate_cache"
            return True
        ctx.forall(f"{c.name}._invalidate_cache", ps, drops, "drops every cache of the address", need=1)


# ------------------------------------------------------------ content addressing
IMPURE = ("random", "time", "uuid", "secrets", "datetime", "os.getpid", "os.urandom", "id", "hash",
          "os.environ", "socket", "getpass", "platform", "threading", "os.getcwd", "numpy.random",
          "os.times", "os.getppid", "os.getlogin", "os.cpu_count", "os.uname", "os.getuid", "os.path.getmtime",
          "sys.getrefcount", "sys.getsizeof", "repr", "object", "tempfile", "os.stat", "builtins.id", "builtins.hash")
SALTED = {"__sizeof__", "getsizeof", "getrefcount", "get_random_signature", "get_node_signature", "current_date_gmt_string", "get_long_infoname"}


def impure_parts(t):
    for x in terms(t):
        if not (isinstance(x, tuple) and x):
            continue
        if x[0] == "call":
            f = x[1]
            if f[0] == "ext" and (f[1] in IMPURE or any(f[1].startswith(m + ".") for m in IMPURE)):
                return f[1]
            if fn_name(x) in SALTED:
                return fn_name(x)
        if is_attr(x, "portal") or is_attr(x, "_portal") or is_attr(x, "entropy_infuser") or \
                is_attr(x, "entered_portals_stack") or is_attr(x, "all_portals"):
            return tstr(x)
        if x[0] == "gvar" and x[2] not in ("hash_type", "max_signature_length", "base32_alphabet"):
            pass
        if x[0] == "ext" and any(x[1] == m or x[1].startswith(m + ".") for m in (
                "random", "time", "uuid", "secrets", "datetime", "os.environ")):
            return x[1]
    return None


def shared_entry(p, x):
    """The result of path p is remembered by the value x itself, so that values
    which merely compare equal (1, 1.0 and True), or an altered value at the same
    place in memory, share it."""
    if any(contains(g, ("typeof", x)) for g, _, _ in p.guards):
        return False
    anything = not any(g[0] == "isinstance" and g[1] == x and b for g, b, _ in p.guards)
    by = ("id", "hash", "builtins.id", "builtins.hash", "repr", "str")

    def key(k):
        if k[0] == "tuple" and len(k) > 1:
            return anything and any(key(y) for y in k[1]) and all(key(y) or y == ("typeof", x) for y in k[1])
        return k == x or (k[0] == "call" and k[1][0] == "ext" and k[1][1] in by and tuple(k[2]) == (x,))
    for t in terms(p.value):
        if not isinstance(t, tuple) or not t:
            continue
        if t[0] == "item" and len(t) > 2 and isinstance(t[2], tuple) and key(t[2]) and not contains(t[1], x):
            return True
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("get", "setdefault", "pop") and t[2] and \
                key(t[2][0]) and not contains(t[1][1], x):
            return True
    return False


def memoized(f):
    """The standard library remembers the results of f by its arguments."""
    for d in f.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        if (e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "")) in ("lru_cache", "cache"):
            return True       # (1,) and (1.0,) are equal, whatever "typed" says
    return False


@rule("C11", "content", "an address is computed from the type and content of the value alone")
def c11(ctx):
    P = ctx.P
    for n, pn in (("HashAddr._build_prefix", None), ("HashAddr._build_hash_signature", None),
                  ("get_hash_signature", None), ("get_base32_hash_signature", None),
                  ("get_base16_hash_signature", None)):
        f = P.func(n)
        a = f.params()[0][-1]
        ps = ctx.run(f, exc="protected", opaque=("convert_base16_to_base32",))

        def pure(p):
            for c, b, _ in p.guards:
                x = impure_parts(c)
                if x:
                    return f"{n} depends on {x}"
            if p.kind != "return":
                return True
            x = impure_parts(p.value)
            if x:
                return f"{n} depends on {x}"
            if shared_entry(p, sym(a)) or memoized(f):
                return f"{n} remembers its result by the value: values that compare equal share it"
            if not contains(p.value, sym(a)):
                return f"{n} ignores the value"
            for e in events(p):
                if e.kind in ("setglobal",) or (e.kind == "setattr" and e.recv is not None and e.recv[0] != "new"
                                                and e.recv[0] != "call"):
                    return f"{n} changes {tstr(e.recv) if e.recv else ''}.{e.name}"
            return True
        ctx.forall(n, ps, pure, "a function of the value alone", need=1)
    f = P.func("HashAddr._build_prefix")
    ps = ctx.run(f, exc="none")
    a = f.params()[0][-1]
    ctx.forall("prefix names the type", ps, lambda p: p.kind != "return" or
               any(x == ("typeof", sym(a)) for x in terms(p.value)) or
               (None if has_call(p.value) else "the prefix does not depend on the type of the value"), "", need=1)
    f = P.func("HashAddr._build_hash_signature")
    ps = ctx.run(f, exc="none")
    a = f.params()[0][-1]

    def whole(p):
        if p.kind != "return":
            return True
        hs = [x for x in terms(p.value) if isinstance(x, tuple) and x and x[0] == "call"
              and fn_name(x) in ("get_hash_signature", "get_base32_hash_signature")]
        if not hs:
            return None if impure_parts(p.value) is None and has_call(p.value, "hash") else \
                "the signature does not contain the hash of the value"
        for h in hs:
            if sym(a) not in [v for _, v in h[3]] + list(h[2]):
                return "the signature is not the hash of the whole value"
        if any(x[0] == "item" and x[2][0] == "slice" and contains(x[1], hs[0])
               for x in terms(p.value) if isinstance(x, tuple) and x and x[0] == "item" and len(x) > 2):
            return "the hash is truncated further"
        return True
    ctx.forall("signature hashes the whole value", ps, whole, "hash of the value", need=1)
    f = P.func("get_base16_hash_signature")
    ps = ctx.run(f, exc="none")

    def hashes(p):
        if p.kind != "return":
            return None
        for x in terms(p.value):
            if isinstance(x, tuple) and x and x[0] == "call" and fn_name(x) == "hash" and \
                    sym(f.params()[0][0]) in list(x[2]) + [v for _, v in x[3]]:
                return True
        for x in terms(p.value):
            if x[0] == "call" and fn_name(x) == "hash":
                for y in list(x[2]) + [v for _, v in x[3]]:
                    if y[0] == "call" and y[1][0] == "ext" and y[1][1] in ("list", "tuple", "str", "repr", "len", "type", "id", "vars", "dir", "iter"):
                        return f"not the value is hashed, but {y[1][1]} of it"
                    if y[0] in ("list", "attr", "item", "c"):
                        return "not the whole value is hashed"
        return None
    ctx.forall("base 16 signature", ps, hashes, "a joblib hash of the value", need=1)
    made = {tuple(sorted((n, v) for x in terms(p.value) if isinstance(x, tuple) and x and x[0] == "call"
                         and "ash" in tstr(x[1]) and "asher" in tstr(x[1]).split(".")[-1] for n, v in x[3]))
            for p in ps.returns()}

    def one_kind(p):
        for g, b, _ in p.guards:
            if any(x[0] == "attr" and x[2] == "modules" for x in terms(g)) and not (
                    g[0] == "in" and g[1] == C("numpy")):
                return f"the hash depends on which modules happen to be loaded ({tstr(g)})"
        return len(made) <= 1 or "the kind of hash depends on the state of the process"
    ctx.forall("one kind of hash", ps, one_kind, "the same hash in every process", need=1)
    f = P.func("get_hash_signature")
    ps = ctx.run(f, exc="none")

    def length(p):
        ls = [x for x in terms(p.value) if isinstance(x, tuple) and x and x[0] == "item"
              and x[2][0] == "slice"]
        for l in ls:
            lo, hi, st_ = l[2][1:4]
            if lo not in (NONE, C(0)) or st_ not in (NONE, C(1)):
                return "the signature is not the beginning of the hash"
            if is_c(hi) and isinstance(hi[2], int) and hi[2] < 16:
                return f"signatures are cut to {hi[2]} characters: different values collide"
        return True
    ctx.forall("signature length", ps, length, "keeps at least 80 bits", need=1)
    # construction
    for c in addr_classes(ctx):
        ctor(ctx, c)
    # execution does not change what the address of a function depends on
    g = P.func("AutonomousFn.__getstate__")
    for c in ("AutonomousFn", "PureFn"):
        cl = P.cls(c)
        gs = cl.find("__getstate__")
        ps = ctx.run(gs, cls=cl, exc="none", opaque=("AutonomousFn._complete_fn_registration",
                                                      "PureFn._complete_fn_registration"))
        keys = set()
        for p in ps:
            d = normal_dict(p.value) if p.kind == "return" else None
            if d:
                keys |= {v[2] for v in d[0].values() if v[0] == "attr" and v[1] == SELF}
        if not keys:
            ctx.check(f"{c} identity", None, gs.loc(), "state not recognised")
            continue
        bad = und = None
        n = 0
        setters = {"__init__", "update", "__setstate__"}
        for f in P.all_functions():
            if f.mod.name.startswith("pythagoras._000_tests") or "OLD" in f.mod.name:
                continue
            for x in ast.walk(f.node):
                ts = []
                if isinstance(x, ast.Assign):
                    ts = x.targets
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                    ts = [x.target]
                elif isinstance(x, ast.Delete):
                    ts = x.targets
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and \
                        len(x.args) == 3 and isinstance(x.args[1], ast.Constant):
                    if x.args[1].value in keys:
                        ts = [ast.Attribute(value=x.args[0], attr=x.args[1].value)]
                for t in ts:
                    if isinstance(t, ast.Attribute) and t.attr in keys:
                        n += 1
                        if f.cls is not None and any(getattr(k, "name", "") == "OrdinaryFn" for k in f.cls.mro):
                            if reach_only(ctx, f, setters):
                                continue
                            bad = bad or (f, t, x)
        if bad:
            ctx.check(f"{c} identity", False, bad[0].loc(bad[2]),
                      f"{bad[0].qual} changes {bad[1].attr}, on which the address of the function depends, "
                      "after the function was created")
        else:
            ctx.check(f"{c} identity", True if n else None, gs.loc(),
                      f"{sorted(keys)} are assigned only when the function is created or loaded", n)


def reach_only(ctx, f, roots):
    """f is one of roots or a private helper called only from them."""
    if f.name in roots:
        return True
    return all(h.name in roots for h in homes(ctx, f, roots))


def ctor(ctx, c):
    f = c.find("__init__")
    ps = ctx.run(f, cls=c, exc="none")
    data = [x for x in f.params()[0] if x not in ("self", "portal")]

    def sup(p):
        return [e for e in events(p) if e.kind == "call" and e.name in ("HashAddr.__init__", "SafeStrTuple.__init__")]

    def derived(p):
        if p.kind != "return":
            return True
        s = sup(p)
        if not s:
            return "the address is never initialised"
        a = s[-1].args.get("args") or s[-1].args.get("0")
        if a is None:
            return None
        for g, b, i in p.guards:
            x = impure_parts(g)
            if x and any(contains(e2, g) for e2 in ()):
                return x
        it = seq_items(a)
        if it is None or len(it) != 2:
            return None
        for nm, v in zip(("prefix", "hash"), it):
            if not any(contains(v, sym(d)) for d in data):
                return f"the {nm} of an address does not depend on the value"
            x = impure_parts_ctor(v)
            if x:
                return f"the {nm} of an address depends on {x}"
            for x in terms(v):
                if isinstance(x, tuple) and x and (x[0] == "typeof" and (
                        x[1] == sym("portal") or fn_name(x[1]) == "get_best_portal_to_use" or is_attr(x[1], "portal")) or
                        c.name == "ValueAddr" and (x == sym("portal") or fn_name(x) == "get_best_portal_to_use")):
                    return f"the {nm} of an address depends on the portal"
            if nm == "hash" and c.name != "ValueAddr" and v[0] == "attr" and v[2] == "hash_signature":
                x = v[1]
                y = call_arg(x, "data", 0) if x[0] == "call" and fn_name(x) == "ValueAddr" else None
                if y is not None:
                    if y[0] == "call" and fn_name(y) == "PureFnCallSignature":
                        if not all(any(contains(z, sym(d)) for z in list(y[2]) + [w for _, w in y[3]]) for d in data):
                            return "a call is addressed by less than its function and arguments"
                    elif any(z[0] == "call" and fn_name(z) == "PureFnCallSignature" for z in terms(y)
                             if isinstance(z, tuple) and z):
                        return "a call is addressed by a part of its signature"
                    else:
                        return None
        if is_attr(it[0], "prefix") and is_attr(it[1], "hash_signature"):
            return it[0][1] == it[1][1] or "prefix and hash come from different addresses"
        if is_attr(it[0], "hash_signature") or is_attr(it[1], "prefix"):
            return "prefix and hash are swapped"
        return True
    ctx.forall(f"{c.name}.__init__", ps, derived, "prefix and hash derived from the value", need=1)


def impure_parts_ctor(t):
    for x in terms(t):
        if not (isinstance(x, tuple) and x):
            continue
        if x[0] == "call":
            f = x[1]
            if f[0] == "ext" and (f[1] in IMPURE or any(f[1].startswith(m + ".") for m in IMPURE)):
                return f[1]
            if fn_name(x) in SALTED:
                return fn_name(x)
    return None


ME = ("pa_x", "len_3_ha")
EQ_WORLDS = [(f"class {'same' if t else 'different'}, {parts}{', portals and caches differ' if d else ''}",
              dict(t=t, chain=chain, diff=d))
             for t in (True, False) for d in (False, True)
             for parts, chain in (("parts same", ME), ("prefix different", ("pb_x", ME[1])), ("end of the prefix different", ("pa_y", ME[1])),
                                  ("hash different", ("pa_x", "len_3_hb")), ("case of the prefix different", ("Pa_x", ME[1])),
                                  ("case of the hash different", ("pa_x", "len_3_Ha")), ("size different", ("pa_x", "len_4_ha")),
                                  ("kind of size different", ("pa_x", "shape_3_ha")), ("no size", ("pa_x", "ha")),
                                  ("prefix and hash divided differently", ("pa", "x_len_3_ha")),
                                  ("letters of prefix and hash divided differently", ("pa_xl", "en_3_ha")),
                                  ("prefix and hash exchanged", ME[::-1]), ("prefix longer", ("pa_xx", ME[1])), ("prefix shorter", ("pa_", ME[1])),
                                  ("hash longer", ("pa_x", "len_3_hax")), ("hash shorter", ("pa_x", "len_3_h")))] + [
    ("the other is no address", dict(t=False, chain=None, diff=True, bare=True))] + [
    (f"the other is {n}", dict(t=False, chain=None, diff=True, bare=True, kind=type(v).__name__, value=v))
    for n, v in (("its text with a slash", "/".join(ME)), ("its text with an underscore", "_".join(ME)), ("its joined text", "".join(ME)),
                 ("its hash", ME[1]), ("the tuple of its parts", ME), ("the list of its parts", list(ME)))]
PARTS = ("str_chain", "strings", "prefix", "hash_signature")


def eq_world(c, o, v, eq):
    """Values of what __eq__ may look at for given class, parts and other state of the operands."""
    def parts(t):
        return ME if t == SELF else v["chain"] if t == o else None

    def atom(t):
        if not isinstance(t, tuple) or not t:
            return UNK
        if t[0] == "typeof" and t[1] == SELF or t == ("cls", c.name):
            return "T"
        if t[0] == "typeof" and t[1] == o:
            return "T" if v["t"] else "U"
        if t[0] == "isinstance" and t[1] == o:
            n = t[2].split(".")[-1]
            if n in ("str", "bytes", "int", "float", "bool", "list", "dict", "set"):
                return n == v.get("kind")
            if n in ("tuple", "Sequence") and v.get("bare"):
                return n == v.get("kind") or n == "Sequence" and "kind" in v
            return True if v["t"] else False if v.get("bare") else UNK
        if t == o and "value" in v:
            return v["value"]
        if t[0] == "is" and set(t[1:]) == {SELF, o}:
            return False
        if t[0] == "eq" and set(t[1:]) == {SELF, o} or t[0] == "call" and fn_name(t) == "__eq__":
            return eq
        if t[0] == "hasattr" and t[1] in (SELF, o):
            if t[2] in PARTS:
                return t[1] == SELF or not v.get("bare")
            return t[1] == SELF or not v["diff"]
        if t[0] == "attr" and t[1] in (SELF, o):
            ch = parts(t[1])
            if t[2] in PARTS:
                return UNK if ch is None else ch if t[2] in PARTS[:2] else ch[PARTS.index(t[2]) - 2]
            if t[2] not in ("__class__", "__dict__"):
                return (t[2], t[1] == o and v["diff"])
        if t[0] == "call" and t[1] == ("ext", "hash"):
            return 7  # hashes of different things can be the same
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("str", "repr", "tuple", "list") and len(t[2]) == 1:
            x = t[2][0]
            if x in (SELF, o) and parts(x) is not None:
                return parts(x) if t[1][1] in ("tuple", "list") else str(parts(x))
            x = teval(x, atom)
            if x is not UNK:
                return tuple(x) if t[1][1] in ("tuple", "list") and isinstance(x, tuple) else \
                    str(x) if t[1][1] == "str" and isinstance(x, str) else UNK
        if t[0] in ("cat", "tuple") and t[1] == (("*", SELF),):
            return parts(SELF)
        if t[0] == "call" and t[1][0] == "prop" and contains(t, SELF) != contains(t, o):
            n = t[1][1].split(".")[-1]
            who = SELF if contains(t, SELF) else o
            return atom(("attr", who, n))
        return UNK
    return atom


@rule("C12", "equality", "addresses are equal exactly when class, prefix and hash agree, and equal ones hash equal")
def c12(ctx):
    P = ctx.P
    for c in addr_classes(ctx):
        eq, ne, ha = c.find("__eq__"), c.find("__ne__"), c.find("__hash__")
        if eq is None:
            ctx.check(f"{c.name}.__eq__", False, c.loc(), "addresses have no equality of their own")
            continue
        for name, f, want in (("__eq__", eq, lambda x: x), ("__ne__", ne, lambda x: not x)):
            if f is None:
                ctx.check(f"{c.name}.__ne__", True, c.loc(), "inequality is the default: not equal")
                continue
            ps = ctx.run(f, cls=c, exc="none", opaque=(eq.qual,) if f is ne else ())
            o = sym(f.params()[0][1])
            for label, v in EQ_WORLDS:
                exp = v["t"] and v["chain"] == ME
                atom = eq_world(c, o, v, exp)

                def res(p, exp=want(exp), atom=atom, v=v):
                    if p.kind != "return":
                        return "comparing raises"
                    if v.get("bare") and any(x[0] == "attr" and x[1] == o and x[2] not in ("__class__", "__dict__", "__hash__")
                                             for g in [g for g, _, _ in p.guards] + [p.value] for x in terms(g)):
                        if any(isinstance(n, ast.Try) for n in ast.walk(f.node)):
                            return None
                        return "comparing with something that is not an address raises"
                    x = teval(p.value, atom)
                    if p.value == ("ext", "NotImplemented"):
                        return not want(False) == exp or None
                    if x is UNK:
                        return None
                    return bool(x) == exp or f"the result is {bool(x)}"
                cand = [p for p in ps if consistent(p, atom)]
                ctx.forall(f"{c.name}.{name}: {label}", ps, res, f"{name} must be {want(exp)} when {label}",
                           paths=cand, need=1)
        if ha is None:
            body = eq.cls.node.body
            ctx.check(f"{c.name}.__hash__", False, eq.loc(), "a class that defines __eq__ without __hash__ "
                      "is not hashable")
            continue
        # the hash must be defined in the class that (last) defines equality, or a subclass of it
        mro = [k for k in c.mro if isinstance(k, ClassInfo)]
        if mro.index(ha.cls) > mro.index(eq.cls):
            ctx.check(f"{c.name}.__hash__", False, eq.loc(), f"{eq.cls.name} defines __eq__ without __hash__: "
                      "its objects are not hashable")
            continue
        ph = ctx.run(ha, cls=c, exc="none")

        def same(p):
            if p.kind != "return":
                return "hash(address) raises"
            x = p.value
            for y in terms(x):
                if y[0] == "call" and y[1] == ("ext", "id"):
                    return "the hash depends on the identity of the object"
            parts = [y for y in terms(x) if isinstance(y, tuple) and y and y[0] == "attr" and y[1] == SELF]
            bad = [y for y in parts if y[2] not in ("str_chain", "prefix", "hash_signature", "strings", "__class__")]
            bad += [("attr", SELF, y[2]) for y in terms(x) if y[0] == "hasattr" and y[1] == SELF and y[2] not in PARTS]
            for g, _, _ in p.guards:
                bad += [("attr", SELF, y[2]) for y in terms(g) if y[0] in ("hasattr", "attr") and y[1] == SELF
                        and y[2] not in (*PARTS, "__class__") and len({q.value for q in ph if q.kind == "return"}) > 1]
            if bad:
                return f"the hash depends on {tstr(bad[0])}, which may differ between equal addresses"
            if impure_parts_hash(x):
                return f"the hash depends on {impure_parts_hash(x)}"
            if not parts and not any(y == ("typeof", SELF) or (y[0] == "cls") for y in terms(x)
                                     if isinstance(y, tuple) and y):
                return None if contains(x, SELF) else True
            return True
        ctx.forall(f"{c.name}.__hash__", ph, same, "hash depends only on what equality compares", need=1)


def impure_parts_hash(t):
    for x in terms(t):
        if isinstance(x, tuple) and x and x[0] == "call":
            f = x[1]
            if f[0] == "ext" and f[1] != "hash" and f[1] in IMPURE:
                return f[1]
            if fn_name(x) in SALTED:
                return fn_name(x)
    return None


# -------------------------------------------------------------------- storing
def is_store(t, name, bases):
    return is_attr(t, name) and (t[1] in bases or is_self_portal(t[1]))


@rule("C13", "stored", "creating an address stores the value in the selected portal")
def c13(ctx):
    c = ctx.P.cls("ValueAddr")
    f = c.find("__init__")
    ps = ctx.run(f, cls=c, exc="none")
    d = [x for x in f.params()[0] if x not in ("self", "portal")][0]

    def best(p):
        out = []
        for e in events(p):
            if e.kind == "call" and last(e) in ("get_best_portal_to_use",):
                out.append((e.res, e))
        return out

    def selects(p):
        if p.kind != "return":
            return True
        b = best(p)
        sup = [e for e in events(p) if e.kind == "call" and e.name == "HashAddr.__init__"]
        if not sup:
            return "the address is never initialised"
        por = sup[-1].args.get("portal")
        if b:
            if any(v == sym("portal") for v in b[0][1].args.values()):
                if por == b[0][0]:
                    return True
                if por in (None, NONE):
                    return "the address is not bound to the selected portal"
                if por[0] in ("attr", "call") and (is_attr(por, "portal") or is_attr(por, "_portal")):
                    return "the address is bound to another portal than the one its value is stored in"
                return por == sym("portal") or None
            return "the portal passed by the caller is ignored"
        return True if por == sym("portal") else "the address is not bound to the portal of the caller"
    ctx.forall("portal", ps, selects, "bound to the selected portal", need=1)

    def stored(p):
        if p.kind != "return":
            return True
        chosen = [r for r, e in best(p) if sym("portal") in e.args.values()]
        bases = chosen + [e.recv for e in events(p) if e.kind == "with_enter"
                          and (e.recv in chosen or fn_name(e.recv) != "get_best_portal_to_use")]
        several = [b for b in bases if b[0] == "elem" and has_call(b, "get_noncurrent_portals", "_noncurrent_portals", "get_entered_portals",
                                                                    "_entered_portals")]
        bases = [b for b in bases if not b == sym("self") and b not in several]
        addr = None
        for e in events(p):
            if e.kind == "call" and last(e) == "get_ValueAddr" and e.recv == sym(d):
                addr = e.res
        w = [e for e in events(p) if e.kind == "setitem" and is_attr(e.recv, "value_store")]
        if any(is_store(e.recv, "value_store", several) and not is_self_portal(e.recv[1]) for e in w):
            if any(is_store(e.recv, "value_store", bases) for e in w):
                w = [e for e in w if is_store(e.recv, "value_store", bases)]
            elif any(k == "break" for l in loops(p.events) for k, xs, _ in l.x["iters"] if any(x.kind == "setitem" for x in flat_events(xs))):
                return "the value is stored in another portal"
            else:
                return None
        for e in w:
            if not is_store(e.recv, "value_store", bases):
                return "the value is stored in another portal"
            if e.args["key"] != SELF:
                return "the value is stored under another address" if addr is None or e.args["key"] != addr else None
            v = e.args["value"]
            if addr is not None:
                if not (fn_name(v) in ("get", "get_typed", "get_from_current_portal", "get_from_noncurrent_portals")
                        and (v[2][:1] == (addr,) or contains(v, addr))):
                    if v == sym(d) or v == addr:
                        return "the object is stored under the address of the value it stands for"
                    return None
            elif v != sym(d):
                return "something else than the value is stored"
        if w:
            return True
        for g, b, _ in p.guards:
            if g[0] == "in" and g[1] == SELF and is_attr(g[2], "value_store") and b:
                return True
        return "an address is returned although the value was not stored"
    ctx.forall("stored", ps, stored, "the value is in the store when the constructor returns", need=2)

    def fails(p):
        bad = [k for k, e in enumerate(events(p)) if e.kind == "setitem" and is_attr(e.recv, "value_store") and failed(e)]
        good = [k for k, e in enumerate(events(p)) if e.kind == "setitem" and is_attr(e.recv, "value_store") and not failed(e)]
        if bad and good and p.kind == "return" and is_c(list(events(p))[good[-1]].args["value"]):
            return "something else is stored if storing the value fails"
        if not bad or p.kind != "return" or good and good[-1] > bad[-1]:
            return True
        return "an address is created although storing the value failed"
    ctx.forall("failed store", ctx.run(f, cls=c, exc="protected"), fails, "no address if storing fails", need=1)

    def refuse(p):
        has = [b for g, b, _ in p.guards if g == ("hasattr", sym(d), "get_ValueAddr")]
        isa = [b for g, b, _ in p.guards if g[0] == "isinstance" and g[1] == sym(d) and "HashAddr" in str(g[2])]
        if has and has[0] is False and isa and isa[0] is True:
            return p.kind == "raise" or "an address of an address is created"
        return True
    ctx.forall("no address of an address", ps, refuse, "addresses are not values", need=1)

    def cached(p):
        if p.kind != "return":
            return True
        for e in events(p):
            if e.kind == "setattr" and e.recv == SELF and e.name == "_value":
                v = e.args["value"]
                if v != sym(d) and not fn_name(v) in ("get", "get_typed"):
                    return "another value is cached than the one stored"
                if v == sym(d) and any(g == ("hasattr", sym(d), "get_ValueAddr") and b for g, b, _ in p.guards):
                    return "the object is cached as the value it stands for"
        return True
    ctx.forall("cached value", ps, cached, "the cached value is the stored one", need=1)


# ------------------------------------------------------------- ready / retrieve
def result_store(c):
    return "value_store" if c.name == "ValueAddr" else "execution_results"


def evidence(p, upto, store):
    """Evidence on a path (before event index upto) that the value is available."""
    for g, b, i in p.guards:
        if i > upto:
            continue
        if b and g[0] == "hasattr" and g[1] == SELF and g[2] in ("_ready", "_value", "_result"):
            return True
        if b and g[0] == "in" and g[1] == SELF and is_attr(g[2], store):
            return True
        if b and g[0] == "truthy" and is_attr(g[1], "_ready", SELF):
            return True
        if b and g[0] == "truthy" and isinstance(g[1], tuple) and g[1][0] in ("attr", "call") and \
                ("_ready_in" in tstr(g[1]) or is_attr(g[1], "ready", SELF)):
            return True
    for i, e in enumerate(p.events):
        if i >= upto:
            break
        if failed(e):
            continue
        if e.kind == "setitem" and is_attr(e.recv, store) and e.args["key"] == SELF:
            return True
        if e.kind == "getitem" and is_attr(e.recv, store) and e.args["key"] == SELF:
            return True
    return False


@rule("C14", "evidence", "an address says it is ready only when its value is available")
def c14(ctx):
    for c in addr_classes(ctx):
        store = result_store(c)
        f = c.find("ready")
        ps = ctx.run(f, cls=c, exc="none")

        def honest(p, store=store):
            for i, e in enumerate(p.events):
                if e.kind == "setattr" and e.recv == SELF and e.name == "_ready":
                    if e.args["value"] == FALSE:
                        return "readiness is cached negatively"
                    if not evidence(p, i, store):
                        return "the address is marked ready although its value was not found"
            if p.kind == "return" and p.value == TRUE:
                return evidence(p, len(p.events), store) or "ready without evidence that the value exists"
            return True
        ctx.forall(f"{c.name}.ready", ps, honest, "ready only with evidence", need=2)

        def complete(p, store=store, c=c):
            if p.kind != "return":
                return True
            if p.value != FALSE:
                v = p.value
                if v == TRUE:
                    return True
                if v[0] in ("c",):
                    return "ready is not a truth value"
                return None
            cur = [b for g, b, _ in p.guards if g[0] == "in" and g[1] == SELF and is_store(g[2], store, ())]
            if not cur:
                return "an address is reported as not ready without looking into its own portal"
            if any(g == ("hasattr", SELF, "_ready") and b for g, b, _ in p.guards):
                return "an address whose value is known is reported as not ready"
            r = search_loop(p.events, store)
            if r is not True:
                return "an address is reported as not ready without looking into the other portals" \
                    if r is False else None
            return True
        ctx.forall(f"{c.name}.ready complete", ps, complete, "not ready only after every portal was asked", need=1)
        ctx.exists(f"{c.name}.ready true", ps, lambda p: p.kind == "return" and p.value == TRUE, "can be ready")
        # every other place that marks an address as ready
        i = c.find("__init__")
        pi = ctx.run(i, cls=c, exc="none")

        def ctor_honest(p, store=store):
            for k, e in enumerate(p.events):
                if e.kind == "setattr" and e.recv == SELF and e.name == "_ready":
                    if not evidence(p, k, store):
                        return "a new address is marked ready although its value was not stored"
            return True
        ctx.forall(f"{c.name}.__init__", pi, ctor_honest, "marked ready only after the value was stored", need=1)
    n = 0
    ok = {"ready", "__init__", "_ready_in_current_portal", "_ready_in_noncurrent_portals"}
    for f in ctx.P.all_functions():
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in ts:
                    if isinstance(t, ast.Attribute) and t.attr == "_ready":
                        n += 1
                        if f.name in ok or f.name.startswith("_") and not f.name.endswith("__"):
                            continue
                        ps = ctx.run(f, cls=f.cls, exc="none")
                        st = result_store(f.cls) if f.cls else "value_store"
                        ctx.forall(f"{f.qual} marks ready", ps, lambda p, st=st: all(
                            evidence(p, k, st) for k, e in enumerate(p.events)
                            if e.kind == "setattr" and e.name == "_ready") or
                            "an address is marked ready although its value was not found", "marks ready")
    ctx.check("writers", True if n else None, "pythagoras", f"{n} assignments of _ready", n)


def noncurrent_src(t):
    u = strip_wrappers(t)
    n = fn_name(u)
    if n in ("get_noncurrent_portals", "_noncurrent_portals"):
        return True
    if has_call(u, "get_noncurrent_portals", "_noncurrent_portals"):
        if u[0] in ("list", "set", "tuple", "call") and any(
                isinstance(x, tuple) and x[:1] == ("each",) and len(x) > 3 and x[3] and noncurrent_src(x[2]) is True
                for x in terms(u)):
            return False
        return False if u[0] == "item" else None
    if has_call(u, "get_entered_portals", "_entered_portals"):
        return False
    return None


def search_loop(evs, store):
    """A loop over all non-current portals each iteration of which that goes on found
    the address missing there (or failed to fetch it)."""
    found = None
    for e in evs:
        if e.kind != "loop" or e.x["iter"] is None:
            continue
        s = noncurrent_src(e.x["iter"])
        if s is None:
            if has_attr(e.x["iter"], "all_portals"):
                return None
            continue
        if s is False:
            found = False
            continue
        ok = True
        for k, xs, gs in e.x["iters"]:
            if k == "break":
                ok = False
            if k == "next":
                miss = any(g[0][0] == "in" and g[0][1] == SELF and is_attr(g[0][2], store) and not g[1]
                           for g in gs)
                fail = any(x.kind == "except" for x in flat_events(xs))
                if not miss and not fail:
                    ok = False
        if ok:
            return True
        found = False
    if found is None and not any(
            x[0] in ("call", "prop") and fn_name(x) in ("get_noncurrent_portals", "_noncurrent_portals")
            or x[0] == "attr" and x[2] == "all_portals" or x[0] == "loop"
            for e in flat_events(evs) for v in [e.recv or NONE, e.res or NONE] for x in terms(v)) and not any(
            e.kind == "loop" for e in flat_events(evs)):
        return False
    return found


@rule("C14", "retrieve", "retrieval returns the stored value or raises KeyError")
def c14_get(ctx):
    P = ctx.P
    c = P.cls("ValueAddr")
    f = P.func("ValueAddr.get_from_current_portal")
    ps = ctx.run(f, exc="none")

    def cur(p):
        if p.kind != "return":
            return True
        v = p.value
        if is_attr(v, "_value", SELF):
            return any(g == ("hasattr", SELF, "_value") and b for g, b, _ in p.guards) or "unset cache returned"
        for e, stk in stacked(p.events):
            if e.kind == "getitem" and e.res == v:
                if not (is_attr(e.recv, "value_store") and e.args["key"] == SELF):
                    return "returns another entry of the store"
                if not is_store(e.recv, "value_store", ()):
                    return "reads from another portal"
                if not stk or not is_self_portal(stk[-1]):
                    return "the value is loaded while another portal is current"
                return True
        if is_c(v):
            return "returns a constant although nothing was found"
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "get" and is_attr(unver(v[1][1]), "value_store"):
            return "for a missing value something else is returned"
        if v[0] == "call" and v[1][0] == "ext" and any(e.kind == "getitem" and e.res in (*v[2], *(x for _, x in v[3])) for e in events(p)):
            return "the stored value is returned altered"
        return None
    ctx.forall("get_from_current_portal", ps, cur, "returns the stored value", need=2)
    f = P.func("ValueAddr.get_from_noncurrent_portals")
    ps = ctx.run(f, exc="protected", )

    def other(p):
        if p.kind == "raise":
            n = p.value[1] if p.value[0] == "exc" else None
            if n == "KeyError" or (n is None and "noncurrent" in tstr(p.value)) or \
                    "with_enter" in tstr(p.value) or "__enter__" in tstr(p.value):
                return True
            if n is None:
                src = [e for e in events(p) if failed(e) and (e.x or {}).get("exc") == p.value]
                if src and not any(has_attr(e.recv, "value_store") for e in src if e.recv):
                    return True
                return True if "get_noncurrent" in tstr(p.value) else \
                    "a failure in one portal ends the search in the others"
            return f"a missing value is reported as {n}, not KeyError"
        v = p.value
        if is_attr(v, "_value", SELF):
            return True
        if is_c(v):
            return "a missing value is returned as a constant"
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "get" and is_attr(unver(v[1][1]), "value_store") and not any(
                contains(g, v) or g[0] == "in" and b for g, b, _ in p.guards):
            return "for a missing value something else is returned"
        return any(e.kind == "getitem" and e.res == v and is_attr(e.recv, "value_store") and
                   e.args["key"] == SELF for e in events(p)) or None
    ctx.forall("get_from_noncurrent_portals", ps, other, "returns a stored value or raises KeyError", need=2)
    ctx.exists("get_from_noncurrent_portals: missing", ps,
               lambda p: p.kind == "raise" and p.value[0] == "exc" and p.value[1] == "KeyError",
               "a value that is nowhere is reported with KeyError")
    f = P.func("ValueAddr.get")
    ps = ctx.run(f, exc="protected")

    def get(p):
        ev = [e for e in p.events if e.kind == "call" and last(e) in (
            "get_from_current_portal", "get_from_noncurrent_portals")]
        if p.kind == "raise":
            return bool(ev) and last(ev[-1]) == "get_from_noncurrent_portals" and failed(ev[-1]) or (
                "a value is reported missing without looking into the other portals"
                if not any(last(e) == "get_from_noncurrent_portals" for e in ev) else True)
        v = p.value
        if is_attr(v, "_value", SELF):
            return any("_value" in tstr(g) and b for g, b, _ in p.guards) or None
        if is_c(v):
            return "a value that cannot be retrieved is returned as a constant"
        if not ev:
            return None
        return v == ev[-1].res or None
    ctx.forall("get", ps, get, "current portal first, then the others", need=2)
    ctx.exists("get: fallback", ps, lambda p: any(
        e.kind == "call" and last(e) == "get_from_current_portal" and failed(e) for e in p.events) and
        p.kind == "return" and any(last(e) == "get_from_noncurrent_portals" and e.res == p.value
                                   for e in p.events if e.kind == "call"),
        "when the own portal lacks the value, the other portals are searched")
    f = P.func("ValueAddr.get_typed")
    ps = ctx.run(f, exc="none")
    et = f.params()[0][1]

    def typed(p):
        if p.kind != "return":
            return True
        return any(b and (g[0] == "isinstance" and et in str(g[2]) or contains(g, sym(et)))
                   for g, b, _ in p.guards) or \
            "a value of another type is returned"
    ctx.forall("get_typed", ps, typed, "only values of the expected type", need=1)
    n = 0
    for cl in addr_classes(ctx):
        ms = set()
        for m in cl.methods.values():
            if any(isinstance(x, ast.Attribute) and x.attr in ("_value", "_result") and
                       isinstance(x.ctx, ast.Store) for x in ast.walk(m.node)):
                ms |= {h for h in homes(ctx, m) if h.cls is not None and h.cls.is_sub(cl)}
        for m in sorted(ms, key=lambda m: m.fq):
            ps = ctx.run(m, cls=cl, exc="none")
            n += 1

            def caches(p):
                for e in events(p):
                    if e.kind == "setattr" and e.name in ("_value", "_result", "_ready") and e.recv is not None and (
                            e.recv[0] in ("cls", "typeof") or is_attr(e.recv, "__class__")):
                        return "what was found for one address is remembered for all of them"
                    if e.kind == "setattr" and e.recv == SELF and e.name in ("_value", "_result"):
                        v = e.args["value"]
                        src = [x for x in events(p) if x.res == v and x.kind in ("getitem", "call")]
                        got = [x.res for x in events(p) if x.kind == "getitem" and x.res is not None
                               and any(is_attr(x.recv, n) for n in ("value_store", "execution_results"))]
                        if v not in got and v[0] in ("call", "op", "cat", "item") and not (
                                v[0] == "call" and v[1][0] in ("fn", "prop", "attr")) and any(contains(v, x) for x in got):
                            return "something else is remembered than the stored value"
                        if v[0] == "sym" and m.name == "__init__":
                            continue
                        if src or fn_name(v) in ("execute", "get") or v[0] in ("item", "call"):
                            if is_c(v):
                                return "a constant is cached"
                            continue
                        return "the cached value was not retrieved from a portal" if is_c(v) else None
                return True
            ctx.forall(f"{m.qual} caches", ps, caches, "only retrieved values are cached")
    ctx.check("caches", True if n else None, "pythagoras", f"{n} functions cache values", n)


# ------------------------------------------------------------------ cross portal
def fetches(ps_path):
    """(event, stack) of reads of a store of a generic non-current portal."""
    out = []
    for e, stk in stacked(ps_path.events):
        if e.kind == "getitem" and is_attr(e.recv, "value_store") or \
                e.kind == "getitem" and is_attr(e.recv, "execution_results"):
            s = elem_src(e.recv[1])
            if s is not None:
                out.append((e, stk, s))
    return out


@rule("C15", "copy", "a value found in another portal is copied into the own portal")
def c15(ctx):
    P = ctx.P
    for q, store in (("ValueAddr.ready", "value_store"), ("ValueAddr.get_from_noncurrent_portals", "value_store"),
                     ("PureFnExecutionResultAddr.ready", "execution_results")):
        f = P.func(q)
        pure = store == "execution_results"
        ps = ctx.run(f, exc="none", volatile=("function", "kwargs", "fn", "arguments"))

        def sources(p):
            for e, stk in stacked(p.events):
                if e.kind == "call" and last(e) in ("get_noncurrent_portals", "_noncurrent_portals"):
                    if not stk or not is_self_portal(stk[-1]):
                        return "the other portals are determined while another portal than the own one is current"
                    r = e.recv
                    if r is not None and r[0] == "typeof" and is_self_portal(r[1]) or (
                            r is not None and is_attr(r, "__class__")):
                        return "only portals of the class of the own portal are searched"
                    if r is not None and r[0] == "cls" and P.cls(r[1]) is not None:
                        need = P.cls("PureCodePortal" if pure else "DataPortal")
                        k = P.cls(r[1])
                        if k is not need and k.is_sub(need):
                            return f"only portals of class {k.name} are searched"
            for e, stk, s in fetches(p):
                r = noncurrent_src(s)
                if r is False:
                    return "not all other portals are searched"
            for l in loops(p.events):
                if l.x["iter"] is not None and noncurrent_src(l.x["iter"]) is False:
                    return "not all other portals are searched"
            if (p.kind == "raise" and p.value[:2] == ("exc", "KeyError") or p.value == FALSE) and search_loop(p.events, store) is False:
                return "the search ends before all other portals were asked"
            return True

        def untouched(p):
            for e, stk in stacked(p.events):
                r = e.recv
                while r is not None and r[0] in ("attr", "cellattr") and r[1][0] in ("attr", "cellattr"):
                    r = r[1]
                if r is None or r[0] not in ("attr", "cellattr") or elem_src(r[1]) is None:
                    continue
                if e.kind in ("setitem", "delitem") or e.kind == "call" and last(e) in (
                        "delete_if_exists", "pop", "clear", "update", "setdefault", "popitem", "discard", "rmdir"):
                    return f"the portal it was found in is modified ({last(e) if e.kind == 'call' else e.kind})"
            return True
        ctx.forall(f"{q}: source kept", ps, untouched, "the portal a value is found in is not modified", need=1)
        ctx.forall(f"{q}: searched", ps, sources, "all portals but the own one are searched", need=1)

        def copied(p):
            fs = [x for x in fetches(p) if x[0].args["key"] == SELF]
            fs = [x for x in fs if not in_dead_loop(p, x[0])]
            if not fs:
                if p.kind == "return" and p.value == TRUE and pure is False and False:
                    return None
                return True
            e0, stk0, src = fs[-1]
            if p.kind == "raise":
                return True
            if stk0 and stk0[-1] != e0.recv[1]:
                return "the value is loaded while another portal is current"
            val = e0.res
            if pure:
                vs = [x[0] for x in fetches(p) if is_attr(x[0].recv, "value_store") and x[0].args["key"] == val]
                gets = [e for e in events(p) if e.kind == "call" and last(e) == "get" and e.recv == val]
                if not vs and not gets:
                    return "the result itself is not copied, only its address"
                val2 = (vs or gets)[-1].res
            ok = False
            for e, stk in stacked(p.events):
                if e.kind == "setitem" and is_attr(e.recv, store) and e.args["key"] == SELF:
                    if not is_self_portal(e.recv[1]):
                        return "the value is copied into another portal"
                    if not stk or not is_self_portal(stk[-1]):
                        return "the value is copied while another portal is current"
                    v = e.args["value"]
                    if not pure:
                        if v != val:
                            return "something else is stored under the address"
                    else:
                        if not (fn_name(v) == "ValueAddr" and val2 in list(v[2]) + [x for _, x in v[3]]):
                            if v == val:
                                return "the address of the result is copied but the result is not stored"
                            return None
                        mk = [s for x, s in stacked(p.events) if x.res == v]
                        pk = [x for n_, x in v[3] if n_ == "portal"]
                        if mk and not (mk[-1] and is_self_portal(mk[-1][-1])) and not (
                                pk and is_self_portal(pk[0])):
                            return "the result is stored in another portal"
                    ok = True
            if not ok:
                return "a value found in another portal is not copied into the own one"
            if pure:
                for nm, alts in (("function", ("function", "fn")), ("arguments", ("kwargs",))):
                    if not any(e.kind == "call" and last(e) in alts and stk and is_self_portal(stk[-1])
                               for e, stk in stacked(p.events)):
                        return f"the {nm} of the call are not copied into the own portal"
            return True
        ctx.forall(f"{q}: copied", ps, copied, "found values are copied into the own portal", need=1)
        ctx.exists(f"{q}: finds", ps, lambda p: p.kind == "return" and any(
            x[0].args["key"] == SELF for x in fetches(p)), "values of other portals are found")

        def order(p):
            """the own portal is asked first"""
            if not q.endswith("ready"):
                return True
            for k, (e, stk, s) in enumerate(fetches(p)):
                cur = [i for g, b, i in p.guards if g[0] == "in" and g[1] == SELF and is_store(g[2], store, ())]
                if not cur:
                    return "other portals are searched before the own one"
            return True
        ctx.forall(f"{q}: own portal first", ps, order, "own portal first", need=1)
    f = P.func("ValueAddr.get_from_noncurrent_portals")
    ps = ctx.run(f, exc="protected")

    def goes_on(p):
        if p.kind != "raise":
            return True
        for e in p.events:
            if e.kind in ("getitem", "setitem") and failed(e) and (is_attr(e.recv, "value_store")):
                if p.value == (e.x or {}).get("exc"):
                    return "a failure in one portal ends the search"
                last_ = [x for x in p.events if x.kind == "loop"]
                return "a failure in one portal ends the search"
        return True
    ctx.forall("search goes on", ps, goes_on, "a portal that lacks the value does not end the search", need=1)


def in_dead_loop(p, ev):
    """the event lies only in the summary of a loop that went past it"""
    return not any(e is ev for e in p.events)
