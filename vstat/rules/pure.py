"""Pure functions: memoisation, guards, identity, requests, waiting (C28-C32, C35, C46, C47)."""
from .base import *
from .ordinary import ext_call, function_classes

PF, RA, CS, FR = "PureFn", "PureFnExecutionResultAddr", "PureFnCallSignature", "PureFnExecutionFrame"


def cls_call(t, name):
    return isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "cls" and t[1][1] == name


def arg(t, *names):
    """Argument of a call term by any of the names, or the first one."""
    for n, v in t[3]:
        if n in names:
            return v
    return t[2][0] if t[2] else None


def recv_of(t):
    """Object a method-call term is made on."""
    if t[0] != "call":
        return None
    f = t[1]
    if f[0] == "attr":
        return f[1]
    return t[2][0] if t[2] else None


def core(t):
    """The keyword arguments a (un)packed form of them was made from."""
    for _ in range(20):
        if cls_call(t, "SortedKwArgs"):
            n = dict(t[3]).get("kargs")
            t = n if n is not None else t
            if n is None:
                return t
            continue
        if t[0] == "call" and fn_name(t) in ("pack", "unpack", "copy"):
            t = recv_of(t)
            continue
        if ext_call(t, "dict") and len(t[2]) == 1 and not t[3]:
            t = t[2][0]
            continue
        if t[0] == "dict" and len(t[1]) == 1 and t[1][0][0] == "**":
            t = t[1][0][1]
            continue
        r = by_item(t)
        if r is not None and r[1] is True:
            t = r[0]
            continue
        return t
    return t


def plain_kw(t):
    """the mapping without copies of it"""
    while True:
        if ext_call(t, "dict") and len(t[2]) == 1 and not t[3]:
            t = t[2][0]
        elif t[0] == "dict" and len(t[1]) == 1 and t[1][0][0] == "**":
            t = t[1][0][1]
        elif cls_call(t, "SortedKwArgs") and dict(t[3]).get("kargs") is not None:
            t = dict(t[3])["kargs"]
        else:
            return t


def lossy(t, src):
    """t is made from src, but parts of src are (or may be) left out"""
    for x in terms(t):
        if x[0] == "dict":
            for q in x[1]:
                if q[0] == "kveach" and len(q) > 4 and q[4] and contains(q[3], src):
                    return True
        if x[0] == "kveach" and len(x) > 4 and x[4] and contains(x[3], src):
            return True
        if x[0] in ("list", "set"):
            for q in x[1]:
                if q[0] == "each" and q[3] and contains(q[2], src):
                    return True
        if (x[0] == "item" and x[2][0] == "slice" or ext_call(x, "islice")) and contains(x, src):
            return True
    return False


def by_item(t):
    """(source, True | what is wrong) for {key: f(value) for ... in source}"""
    if t[0] != "dict" or len(t[1]) != 1 or t[1][0][0] != "kveach":
        return None
    _, k, v, src, gs = t[1][0][:5]
    k, v, src = unver(k), unver(v), unver(src)
    base = src
    while base[0] == "call" and (base[1][0] == "ext" and base[1][1] in ("list", "sorted", "tuple") or (
            base[1][0] == "attr" and base[1][2] in ("items", "keys"))):
        base = base[2][0] if base[1][0] == "ext" else base[1][1]
    val = ("item", base, k)
    if gs:
        return base, "some arguments are left out"
    if k not in (("elem", base), ("elem", src), ("item", ("elem", src), C(0))):
        return base, "arguments get other names" if contains(k, ("elem", base)) or contains(k, ("elem", src)) else None
    while cls_call(v, "ValueAddr"):
        v = arg(v, "data")
        if v is None:
            return base, None
    if v in (val, ("item", ("elem", src), C(1))):
        return base, True
    return base, "the arguments are replaced by something else"


def kw(e):
    """What ** stands for in a call event."""
    a = dict(e.args)
    v = a.pop("kwargs", None)
    if v is None:
        v = a.pop("**", None)
    if a:
        return None
    return v


def call_addr(t, fn=SELF, kwargs=("sym", "kwargs")):
    """Is t the address of the call of fn with kwargs?  True / text / None"""
    if cls_call(t, RA):
        a, b = dict(t[3]).get("a_fn"), dict(t[3]).get("arguments")
        if a is None or b is None:
            return None
        if a != fn:
            return "the address of another function"
        if core(b) == kwargs:
            return True
        r = by_item(core(b))
        if r is not None and r[0] == kwargs and isinstance(r[1], str):
            return r[1]
        if lossy(b, kwargs):
            return "the address does not depend on all arguments"
        return "the address of another call" if not contains(b, kwargs) else None
    if fn_name(t) == "get_address" and recv_of(t) == fn:
        v = dict(t[3]).get("kwargs", dict(t[3]).get("**"))
        return True if v is not None and core(v) == kwargs else None
    return None


def is_addr(t, **k):
    return call_addr(t, **k) is True


def bodies(p):
    """Executions of the function itself (the inherited execute)."""
    return [e for e in events(p) if e.kind == "call" and last(e) == "execute" and e.recv == SELF
            and not e.name.startswith("PureFn.")]


def ready_of(t):
    """t is <addr>.ready -> addr"""
    if t[0] == "call" and fn_name(t) in ("ready",):
        return recv_of(t)
    if is_attr(t, "ready"):
        return t[1]
    return None


def result_writes(p, recv=None):
    return [e for e in events(p) if e.kind == "setitem" and is_attr(e.recv, "execution_results")]


def prob(t):
    return is_attr(t, "p_consistency_checks") or fn_name(t) == "p_consistency_checks"


def exec_atom(t, v):
    a = ready_of(t)
    if a is not None:
        return v["ready"] if is_addr(a) else UNK
    if prob(t):
        return v["p"]
    if t[0] == "call" and fn_name(t) == "random":
        return v["rnd"]
    if fn_name(t) == "can_be_executed":
        return v.get("can", True)
    return UNK


def memo_value(p, t):
    """t is what is stored for the call"""
    t = unver(t)
    if fn_name(t) == "get" and recv_of(t) is not None and is_addr(recv_of(t)):
        to = dict(t[3]).get("timeout", NONE)
        return True if to == NONE else None
    if t[0] == "item" and is_attr(t[1], "value_store"):
        k = t[2]
        if k[0] == "item" and is_attr(k[1], "execution_results"):
            return is_addr(k[2]) or None
    if fn_name(t) == "get" and recv_of(t) is not None:
        k = recv_of(t)
        if k[0] == "item" and is_attr(k[1], "execution_results"):
            return is_addr(k[2]) or None
    return None


# ------------------------------------------------------------------ C28
@rule("C28", "memoisation", "a call whose result is stored is not executed again")
def c28(ctx):
    c = ctx.P.cls(PF)
    ps = ctx.run(c.find("execute"), cls=c, exc="none")

    def out(p, exp):
        b = bodies(p)
        if exp == "memo":
            if b:
                return "a function whose result is stored is executed again"
            if p.kind != "return":
                return "the stored result is not returned"
            m = memo_value(p, p.value)
            if m is None and not any(ready_of(x) for x in terms(p.value)):
                return None if p.value != NONE else "the stored result is not returned"
            if result_writes(p):
                return "a stored result is written again"
            return m
        if p.kind != "return":
            return None if b else True
        if not b:
            if memo_value(p, p.value):
                return "a result that is not stored is waited for instead of executing the function" if exp == "exec" \
                    else "a consistency check that is due is not conducted"
            return "the function is not executed"
        if len(b) > 1 or b[0].loops:
            return "the function is executed more than once"
        if unver(p.value) != unver(b[0].res):
            return "what is returned is not the result of the execution"
        return True
    rows = []
    for pr in (None, 0):
        for rnd in (0.0, 0.5):
            rows.append((f"ready, p={pr}, r={rnd}", dict(ready=True, p=pr, rnd=rnd), "memo"))
    rows += [("ready, p=0.0001, r=0.005", dict(ready=True, p=0.0001, rnd=0.005), "memo"),
             ("ready, p=0.9999, r=0.5", dict(ready=True, p=0.9999, rnd=0.5), "due"),
             ("ready, p=1, r=0.5", dict(ready=True, p=1, rnd=0.5), "due")]
    rows += [("ready, p=0.3, r=0.5", dict(ready=True, p=0.3, rnd=0.5), "memo"),
             ("ready, p=0.9, r=0.95", dict(ready=True, p=0.9, rnd=0.95), "memo")]
    for pr in (None, 0, 0.5, 1):
        for rnd in (0.0, 0.5, 0.99):
            rows.append((f"not ready, p={pr}, r={rnd}", dict(ready=False, p=pr, rnd=rnd), "exec"))
    ctx.table("execute", ps, rows, exec_atom, out, "executed exactly when there is no stored result")


@rule("C28", "recording", "the result of an execution is stored under the address of the call")
def c28_store(ctx):
    c = ctx.P.cls(PF)
    ps = ctx.run(c.find("execute"), cls=c, exc="none")

    def ok(p):
        if p.kind != "return":
            return True
        b = bodies(p)[0]
        evs = events(p)
        w = [e for e in result_writes(p)]
        if not w:
            return "the result of an execution is not stored"
        good = False
        for e in w:
            a = call_addr(e.args["key"])
            if a is None and (fn_name(unver(e.args["key"])) == "get_ValueAddr" or cls_call(unver(e.args["key"]), "ValueAddr")):
                a = "the address of a value"
            if a is not True:
                return None if a is None else "the result is stored under " + a
            v = e.args["value"]
            if not cls_call(v, "ValueAddr") or dict(v[3]).get("data") != b.res:
                return "something else than the address of the result of this execution is stored" \
                    if v == b.res or not contains(v, b.res) else None
            if evs.index(e) < evs.index(b):
                return "something is stored before the function is executed"
            if unver(e.recv[1]) != ("attr", SELF, "portal") and fn_name(e.recv[1]) != "portal":
                return "the result is stored in another portal" if has_call(e.recv[1], "get_noncurrent_portals") else None
            good = True
        return good
    ctx.forall("execute: stored", ps, ok, "stored under the address of the call", sel=lambda p: bool(bodies(p)), need=2)
    pa = ctx.run(c.find("execute"), cls=c, exc="all", opaque=("portal",),
                 raises=lambda e: e.kind in ("call", "setitem", "with_enter") and last(e) in (
                     "execute", "[]=", "register_execution_result", "can_be_executed"))

    def fails(p):
        bad = [e for e in events(p) if failed(e) and e.kind in ("call", "setitem")]
        if not bad:
            return True
        e = bad[0]
        evs = events(p)
        w = [x for x in result_writes(p) if not failed(x)]
        if e.kind == "call" and e in bodies(p):
            if w:
                return "a failed execution leaves a result"
            if p.kind != "raise":
                return "a failed execution looks like a successful one"
        if e.kind == "setitem" and is_attr(e.recv, "execution_results") and p.kind != "raise":
            return "a result that could not be stored is reported as stored"
        return True
    ctx.forall("execute: failing", pa, fails, "a failed execution stores nothing and fails", need=3)


@rule("C28", "no other writers", "keeping records of an execution never stores a result")
def c28_writers(ctx):
    c = ctx.P.cls(FR)
    for n, f in sorted(c.methods.items()):
        ps = ctx.run(f, cls=c, exc="none")

        def ok(p):
            for e in events(p):
                if e.kind == "setitem" and is_attr(unver(e.recv), "execution_results"):
                    b = unver(e.recv)[1]
                    if is_attr(b, "portal") or fn_name(b) == "portal" or contains(b, "portal"):
                        return "a result is stored although the call need not have succeeded"
            return True
        ctx.forall(f"{FR}.{n}", ps, ok, "no result is stored")


@rule("C28", "through the address", "executing an address is executing the call")
def c28_addr(ctx):
    c = ctx.P.cls(RA)
    ps = ctx.run(c.find("execute"), cls=c, exc="none")

    def ok(p):
        if p.kind != "return":
            return None
        ex = [e for e in events(p) if e.kind == "call" and last(e) in ("execute", "__call__") and e.recv != SELF]
        for e in events(p):
            if e.kind == "setattr" and e.recv == SELF and e.name == "_result" and is_c(e.args["value"]):
                return "a failed execution leaves a result in the address"
        if is_attr(unver(p.value), "_result", SELF) and not ex:
            had = [b for g, b, _ in p.guards if g == ("hasattr", SELF, "_result")]
            return bool(had and had[0]) or None
        if not ex:
            return memo_addr(p.value) or (None if p.value != NONE else "nothing is executed")
        if len(ex) > 1 or ex[0].loops:
            return "the call is executed more than once"
        e = ex[0]
        if not own(e.recv, "function", "fn", "_function"):
            return None
        if e.name.endswith("Fn.execute") and not e.name.startswith("PureFn."):
            return "the function is executed past its memoisation"
        v = kw(e)
        if v is not None and any(x[0] == "kveach" and len(x) > 4 and x[4] for x in terms(v)):
            return "the call is executed without some of its arguments"
        if v is None or not own(core(v), "arguments", "kwargs", "_arguments"):
            return "the call is executed with other arguments" if v is None or not contains(v, SELF) else None
        return unver(p.value) == unver(e.res) or "the result of the execution is not returned"
    ctx.forall("address.execute", ps, ok, "the function is executed with the arguments of the call", need=2)
    pf = ctx.run(c.find("execute"), cls=c, exc="handlers", base_exc=True,
                 raises=lambda ev: ev.kind == "call" and last(ev) in ("execute", "__call__"))

    def left(p):
        bad = [e for e in events(p) if e.kind == "call" and last(e) in ("execute", "__call__") and failed(e)]
        if bad and any(e.kind == "setattr" and e.recv == SELF and e.name == "_result" for e in events(p)):
            return "a failed execution leaves a result in the address"
        if bad and p.kind == "return":
            return "a failed execution does not fail for the caller"
        return True
    ctx.forall("address.execute: failures", pf, left, "a failure leaves no result", need=1)
    f = ctx.P.cls(PF)
    pr = ctx.run(f.find("run"), cls=f, exc="none")

    def run(p):
        if p.kind != "return":
            return None
        if call_addr(p.value) is not True:
            if fn_name(p.value) == "execute":
                return "run returns the result instead of the address"
            return None
        ex = [e for e in events(p) if e.kind == "call" and last(e) == "execute" and not failed(e)]
        if len(ex) != 1 or ex[0].loops:
            return "run does not execute the function" if not ex else "run executes the function more than once"
        e = ex[0]
        if e.recv == p.value or (e.recv == SELF and core(kw(e) or NONE) == sym("kwargs")):
            return True
        return None
    ctx.forall("run", pr, run, "executed, and the address returned", need=1)
    for n in ("run", "swarm", "run_list", "swarm_list", "run_grid", "swarm_grid", "execute"):
        g = f.find(n)
        pg = ctx.run(g, cls=f, exc="handlers", base_exc=True,
                     raises=lambda ev: ev.kind == "call" and last(ev) in ("execute", "run_list", "request_execution", "swarm_list"))

        def hidden(p):
            bad = [e for e in events(p) if e.kind == "call" and last(e) in ("execute", "run_list", "request_execution", "swarm_list") and failed(e)]
            inner = [1 for l in loops(p.events) for k, xs, gs in l.x["iters"] if k in ("next", "break", "continue")
                     and any(e.kind == "call" and last(e) in ("execute", "request_execution") and failed(e) for e in flat_events(xs))]
            if p.kind == "return" and (bad or inner):
                return "a failed execution does not fail for the caller"
            return True
        ctx.forall(f"{n}: failures", pg, hidden, "failures reach the caller", need=1)


def own(t, *names):
    """t is an attribute / property of self with one of the names"""
    t = unver(t)
    if t[0] == "attr" and t[1] == SELF and t[2] in names:
        return True
    return t[0] == "call" and fn_name(t) in names and recv_of(t) == SELF


def memo_addr(t):
    """t is the stored result of the address self"""
    t = unver(t)
    if is_attr(t, "_result", SELF):
        return True
    k = None
    if t[0] == "item" and is_attr(t[1], "value_store"):
        k = t[2]
    elif fn_name(t) == "get" and recv_of(t) is not None:
        k = recv_of(t)
    if k is None:
        return None
    if k[0] == "item" and is_attr(k[1], "execution_results"):
        return k[2] == SELF or None
    return None


# ------------------------------------------------------------------ C29
@rule("C29", "gate", "nothing is executed before the guards have passed")
def c29_gate(ctx):
    c = ctx.P.cls(PF)
    ps = ctx.run(c.find("execute"), cls=c, exc="none")
    a = ctx.P.cls(RA)
    # does the address of a call execute the function with addresses in place of the arguments?
    packed = any(kw(e) is not None and own(unver(plain_kw(kw(e))), "arguments", "_arguments")
                 for p in ctx.run(a.find("execute"), cls=a, exc="none") for e in events(p)
                 if e.kind == "call" and last(e) in ("execute", "__call__") and e.recv != SELF)

    def ok(p):
        b = bodies(p)[0]
        idx = p.events.index(b) if b in p.events else len(p.events)
        st = None
        for g, v, i in p.guards:
            for x in terms(g):
                if x[0] == "call" and fn_name(x) == "can_be_executed":
                    r = recv_of(x)
                    if r != SELF and not is_addr(r):
                        return "the guards of another function are asked" if r == sym("kwargs") else None
                    k = dict(x[3]).get("kwargs", dict(x[3]).get("**"))
                    if r == SELF and (k is None or core(k) != sym("kwargs")):
                        return "the guards do not get the arguments of the call"
                    if r == SELF:
                        o = plain_kw(k)
                        if fn_name(o) == "pack" or packed and o == sym("kwargs"):
                            return "the guards get addresses instead of the arguments of the call"
                    w = {y: teval(g, lambda t: y if t == x else UNK) for y in (True, False)}
                    if UNK in w.values():
                        return None
                    if w[True] == w[False]:
                        continue
                    if w[True] != v:
                        return "the function is executed although a guard failed"
                    if i <= idx:
                        st = True
                    else:
                        return "the function is executed before its guards"
        if st:
            return True
        if calls(p, "can_be_executed"):
            return "the answer of the guards is ignored"
        if any(has_attr(g, "guards") for g, _, _ in p.guards):
            return None
        return "the function is executed without asking its guards"
    ctx.forall("execute: guards", ps, ok, "the guards have passed", sel=lambda p: bool(bodies(p)), need=2)

    def refused(p):
        no = [g for g, v, _ in p.guards if has_call(g, "can_be_executed")
              and teval(g, lambda t: False if fn_name(t) == "can_be_executed" else UNK) is v]
        if not no:
            return True
        return p.kind == "raise" or "a call whose guards fail looks like a successful one"
    ctx.forall("execute: refused", ps, refused, "the call fails when a guard fails", need=1)


@rule("C29", "guards", "every guard is executed with the arguments of the call")
def c29_guards(ctx):
    c = ctx.P.cls(PF)
    f = c.find("can_be_executed")
    ps = ctx.run(f, cls=c, exc="handlers", base_exc=True, stable=("guards",))
    GU = ("attr", SELF, "guards")

    def none(p):
        for g, b, _ in p.guards:
            u = unver(g)
            v = {x: teval(u, lambda t: x if t == GU else UNK) for x in (None, "abc")}
            if UNK not in v.values() and bool(v[None]) != bool(v["abc"]):
                return bool(v[None]) == b
        return None

    def island(t):
        t = unver(t)
        return t[0] == "item" and has_attr(t[1], "known_functions") and t[2] == ("attr", SELF, "island_name")

    def guard_ex(e, el):
        if e.kind != "call" or last(e) not in ("execute", "__call__") or failed(e):
            return False
        r = unver(e.recv) if e.recv is not None else None
        return r is not None and r[0] == "item" and island(r[1]) and r[2] == el

    def ok(p):
        bad = [e for e in events(p, False) if failed(e) and e.kind in ("call", "getitem")]
        exc = [e for e in p.events if e.kind == "except"]
        if p.kind == "raise":
            return True
        if p.kind != "return":
            return None
        if exc or bad:
            if p.value == TRUE:
                return "a function whose guard fails is executed"
            if p.value[0] == "isinstance" and exc:
                return "a function whose guard fails is executed"
            return True if p.value in (FALSE, NONE) else None
        if p.value == FALSE:
            return "a function whose guards all pass is refused"
        if p.value != TRUE:
            return None
        n = none(p)
        if n is True:
            return True
        def one(l):
            it = unver(l.x["iter"])
            src = strip_wrappers(it)
            el = ("elem", it)
            direct = None
            if src[0] == "list" and len(src[1]) == 1 and src[1][0][0] == "each":
                x = src[1][0]
                if x[3]:
                    return "not all guards are asked"
                direct, el, src = x[1], ("elem", x[2]), strip_wrappers(x[2])
            if src != GU:
                return "not all guards are asked" if src[0] in ("item",) or any(
                    t[0] == "op" and t[1] in ("-", "&") or fn_name(t) in ("difference", "intersection")
                    for t in terms(src)) else None
            for k, xs, gs in l.x["iters"]:
                if k == "raise":
                    continue
                if k != "next":
                    return "not all guards are asked"
                ex = [e for e in flat_events(xs) if e.kind == "call" and last(e) in ("execute", "__call__") and not failed(e)]
                ge = [e for e in ex if guard_ex(e, el)]
                if not ge:
                    for e in ex:
                        r = unver(e.recv) if e.recv is not None else NONE
                        if r[0] == "item" and r[2] == el and r[1][0] == "item" and has_attr(r[1][1], "known_functions") \
                                and r[1][2] != ("attr", SELF, "island_name"):
                            return "the guards of another island are asked"
                    return None if ex else "some guards are not asked"
                v = kw(ge[0])
                if v is None or core(v) != sym("kwargs"):
                    return "the guards do not get the arguments of the call"
            return True
        rs = [one(l) for l in p.events if l.kind == "loop" and l.x["iter"] is not None
              and contains(unver(l.x["iter"]), GU)]
        if any(r is True for r in rs):
            return True
        if any(r is None for r in rs):
            return None
        if rs:
            return rs[-1]
        return None if n is None else "the guards are not asked"
    ctx.forall("can_be_executed", ps, ok, "true exactly if no guard raises", need=3)
    a = ctx.P.cls(RA)
    pa = ctx.run(a.find("can_be_executed"), cls=a, exc="none")

    def fwd(p):
        if p.kind != "return":
            return None
        v = p.value
        if fn_name(v) != "can_be_executed" or not own(recv_of(v), "function", "fn", "_function"):
            return None if not is_c(v) else "the guards are not asked"
        k = dict(v[3]).get("kwargs", dict(v[3]).get("**"))
        if k is None or not own(core(k), "kwargs", "arguments"):
            return None if k is not None and contains(k, SELF) else "the guards do not get the arguments of the call"
        if own(k, "arguments", "_arguments"):
            return "the guards get addresses instead of the arguments of the call"
        return True
    ctx.forall("address.can_be_executed", pa, fwd, "the guards of the function, with the arguments of the call", need=1)


@rule("C29", "kinds of guards", "only strictly autonomous functions of the same island and portal are guards")
def c29_kinds(ctx):
    c = ctx.P.cls(PF)
    f = c.find("_preprocess_guards") or c.find("__init__")
    if f.name == "__init__":
        ctx.check("guards", None, c.loc(), "guards are not processed by a method")
        return
    ps = ctx.run(f, cls=c, exc="none")
    a = sym(f.params()[0][1])

    def must(g, x):
        """what the assumptions show about the guard x"""
        got = set()
        for cnd, b, *_ in g:
            cnd = unver(cnd)
            if cnd == ("isinstance", x, "AutonomousFn"):
                got.add("fn" if b else "notfn")
            if cnd == ("truthy", ("attr", x, "strictly_autonomous")) and b:
                got.add("strict")
            if cnd[0] in ("eq", "is") and b:
                for n in ("island_name", "portal"):
                    s, o = ("attr", x, n), ("attr", SELF, n)
                    if s in cnd[1:3] and (o in cnd[1:3] or any(fn_name(y) == n and recv_of(y) == SELF for y in cnd[1:3])):
                        got.add(n)
                    if any(fn_name(y) == n and recv_of(y) == x for y in cnd[1:3]) and (
                            o in cnd[1:3] or any(fn_name(y) == n and recv_of(y) == SELF for y in cnd[1:3])):
                        got.add(n)
            if cnd[0] == "in" and cnd[1] == x and has_attr(cnd[2], "known_functions") and b:
                got.add("known")
        return got

    def ok(p):
        if p.kind != "return":
            return True
        none = [b for g, b, _ in p.guards if g == ("isnone", a)]
        if none and none[0]:
            return p.value == NONE or "guards appear where none were given"
        v = strip_wrappers(p.value)
        if v == NONE or v == C(False):
            return "the guards given are dropped"
        if v[0] == "op" and v[1] == "-" or fn_name(v) in ("difference",):
            return "a guard that was given is dropped"
        if v[0] == "mu":
            ms = [x for x in ps.it.mus.get(v, ())]
            return "only the last guard is kept" if any(m[0] == "list" and m[1] and not contains(m, v) for m in ms) else None
        if v[0] == "item" and (v[2][0] == "slice" or ext_call(v[2], "slice")):
            return "some of the guards given are dropped"
        if fn_name(v) == "values" and any(x[0] == "kveach" and x[1] != x[2] and any(
                y[0] == "call" and y[1][0] == "attr" and y[1][2] in ("lower", "upper", "casefold", "strip", "title", "swapcase")
                or y[0] == "item" or ext_call(y, "len") for y in terms(x[1])) for x in terms(v)):
            return "guards with similar names replace each other"
        if v[0] != "list":
            return None
        if any(t[0] == "item" and t[2][0] == "slice" and contains(t[1], a) or ext_call(t, "islice") for x in v[1] if x[0] == "each"
               for t in terms(x[2])):
            return "some of the guards given are dropped"
        for x in v[1]:
            if x[0] == "one":
                t, gs = x[1], [g[:2] for g in p.guards]
            elif x[0] == "each":
                t, gs = x[1], list(x[3]) + [g[:2] for g in p.guards]
            else:
                return None
            if is_attr(unver(t), "fn_name"):
                o, name = unver(t)[1], True
            else:
                o, name = unver(t), False
            got = must(gs, o)
            if name:
                miss = {"strict": "a guard need not be strictly autonomous",
                        "island_name": "a guard of another island is accepted",
                        "portal": "a guard of another portal is accepted"}
                for k, txt in miss.items():
                    if k not in got:
                        return txt
            elif "known" not in got:
                return "an unknown name is accepted as a guard"
        if not v[1]:
            return None
        for l in loops(p.events):
            if l.x["iter"] is None or not contains(l.x["iter"], a):
                continue
            parts = [set(unver(g[0]) for g in x[3]) for x in v[1] if x[0] == "each"]
            took = [set((unver(g[0]), g[1]) for g in x[3]) for x in v[1] if x[0] == "each"]
            if not took:
                return None
            for k, xs, gs in l.x["iters"]:
                if k == "next" and not any(t <= set((unver(g[0]), g[1]) for g in gs) for t in took):
                    return "a guard that is not acceptable is silently ignored"
        return True
    ctx.forall("guards accepted", ps, ok, "strictly autonomous, of the same island and portal", need=3)
    i = c.find("__init__")
    pi = ctx.run(i, cls=c, exc="none", opaque=("_preprocess_guards", "_begin_fn_registration"))

    def kept(p):
        if p.kind != "return":
            return True
        w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "guards"]
        if not w:
            if any(g == ("isnone", sym("guards")) and b for g, b, _ in p.guards) and any(
                    g[0] == "isinstance" and g[2] == PF and b for g, b, _ in p.guards):
                return True  # kept by update
            return "the guards of a function are forgotten"
        v = w[-1].args["value"]
        AF = sym(i.params()[0][1])
        given = copied = None
        for g, b, _ in p.guards:
            if g == ("isnone", sym("guards")):
                given = not b
            if g[0] == "isinstance" and g[1] == AF and g[2] == PF:
                copied = b
        if given is False:
            if copied is False:
                return True
            if any(is_attr(x, "guards", AF) for x in terms(unver(v))):
                return True
            if v == NONE or fn_name(v) == "_preprocess_guards":
                return "a copy of a function loses its guards"
            return None
        if fn_name(v) == "_preprocess_guards":
            if contains(v, sym("guards")):
                return True if given else "a copy of a function loses its guards"
            return "the guards of a function are forgotten"
        return None if v != NONE else "the guards of a function are forgotten"
    ctx.forall("guards kept", pi, kept, "the guards given are those of the function", need=1)
    u = c.find("update")
    pu = ctx.run(u, cls=c, exc="none")

    def upd(p):
        if p.kind != "return":
            return True
        w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "guards"]
        return bool(w) and is_attr(unver(w[-1].args["value"]), "guards", sym(u.params()[0][1])) or "a copy of a function loses its guards"
    ctx.forall("guards copied", pu, upd, "another object of the same function has the same guards", need=1)


    restored(ctx, c, ("guards",), "guards")


def restored(ctx, c, names, what):
    """a copy made from the pickled state has the same fields"""
    f = c.find("__setstate__")
    g = c.find("__getstate__")
    if f is None or g is None:
        ctx.check(what + ": copies", None, c.loc(), "no explicit state")
        return
    S = sym(f.params()[0][1])
    ps = ctx.run(f, cls=c, exc="none")
    pg = ctx.run(g, cls=c, exc="none")

    def back(p):
        if p.kind != "return":
            return True
        w = {}
        for e in events(p):
            if e.kind == "setattr" and e.recv == SELF:
                w[e.name] = unver(e.args["value"])
        for n in names:
            if n not in w:
                upd = any(e.kind == "call" and last(e) == "update" for e in events(p))
                return None if upd else f"a copy does not have its {n}"
            if w[n] != ("item", S, C(n)):
                if w[n][0] == "item" and w[n][1] == S or is_c(w[n]):
                    return f"a copy has another {n}"
                return None
        return True
    ctx.forall(what + ": copies", ps, back, "restored from the pickled state", need=1)

    def saved(p):
        if p.kind != "return":
            return True
        v = p.value
        if v[0] == "dict":
            for x in v[1]:
                if x[0] == "kv" and is_c(x[1]) and x[1][2] in names and unver(x[2]) != ("attr", SELF, x[1][2]):
                    return f"another {x[1][2]} is pickled" if fn_name(x[2]) != x[1][2] else None
        ds = [x for x in terms(v) if x[0] == "dict"]
        have = {x[1][2] for d in ds for x in d[1] if x[0] == "kv" and is_c(x[1])}
        for n in names:
            if have and n not in have:
                return f"the pickled state lacks {n}"
        for d in ds:
            for x in d[1]:
                if x[0] == "kv" and is_c(x[1]) and x[1][2] in names and is_c(x[2]):
                    return f"another {x[1][2]} is pickled"
        return True if have else None
    ctx.forall(what + ": pickled", pg, saved, "part of the pickled state", need=1)


# ------------------------------------------------------------------ C30
def value_addr_of(t, data):
    """t is ValueAddr(data)"""
    return cls_call(t, "ValueAddr") and dict(t[3]).get("data", t[2][0] if t[2] else None) == data


@rule("C30", "signature", "a call is identified by its function and all its arguments")
def c30_sig(ctx):
    c = ctx.P.cls(CS)
    f = c.find("__init__")
    fn, ar = [sym(x) for x in f.params()[0][1:3]]
    ps = ctx.run(f, cls=c, exc="none")

    def ok(p):
        if p.kind != "return":
            return True
        w = {}
        for e in events(p):
            if e.kind == "setattr" and e.recv == SELF:
                w[e.name] = e.args["value"]
        if "fn_addr" not in w or "args_addr" not in w:
            return "the signature lacks the " + ("function" if "fn_addr" not in w else "arguments")
        if not value_addr_of(w["fn_addr"], fn):
            d = dict(w["fn_addr"][3]).get("data") if cls_call(w["fn_addr"], "ValueAddr") else None
            return "the signature does not contain the address of the function" if not contains(w["fn_addr"], fn) or (
                d is not None and d[0] == "attr" and d[1] == fn) else None
        v = w["args_addr"]
        if not cls_call(v, "ValueAddr") or dict(v[3]).get("data") is None:
            return None
        d = dict(v[3])["data"]
        if d == ar:
            return "the arguments are part of the signature as live values, not as addresses"
        u = unver(d)
        while cls_call(u, "SortedKwArgs") or cls_call(u, "KwArgs") or ext_call(u, "dict") or u[0] == "dict" and len(u[1]) == 1 and u[1][0][0] == "**":
            n = u[1][0][1] if u[0] == "dict" else next(iter(u[2]), None) or next((x for _, x in u[3]), None)
            if n is None:
                break
            u = unver(n)
        if fn_name(u) == "unpack" and core(u) == ar:
            return "the arguments are part of the signature as live values, not as addresses"
        if core(d) != ar:
            return "the signature does not contain all arguments" if not contains(d, ar) else None
        for n in ("fn_name", "island_name"):
            if n in w and w[n] != ("attr", fn, n):
                return f"the signature carries another {n}" if not fn_name(w[n]) == n else None
            if n not in w:
                return f"the signature lacks the {n}"
        return True
    ctx.forall("signature", ps, ok, "the function and all arguments by address", need=1)
    g = c.find("__getstate__")
    pg = ctx.run(g, cls=c, exc="none")

    def state(p):
        if p.kind != "return":
            return None
        d = dict_parts(p.value)
        if d is None or d[1]:
            return None
        for n in ("fn_name", "island_name", "fn_addr", "args_addr"):
            if d[0].get(n) != ("attr", SELF, n):
                return f"{n} is no part of what identifies a call"
        return len(d[0]) == 4 or None
    ctx.forall("signature state", pg, state, "all of it is hashed", need=1)
    restored(ctx, c, ("fn_name", "island_name", "fn_addr", "args_addr"), "signature")


@rule("C30", "arguments", "arguments are normalised: every one of them, in the order of their names, by address")
def c30_args(ctx):
    c = ctx.P.cls("SortedKwArgs")
    f = c.find("__init__")
    star = f.params()[3]
    if star is None:
        ctx.check("SortedKwArgs", False, f.loc(), "arguments are not taken by name")
        return
    A = sym(star)
    ps = ctx.run(f, cls=c, exc="none")

    def srt(p):
        if p.kind != "return":
            return True
        done = False
        for l in p.events:
            if l.kind == "loop" and l.x["iter"] is not None and contains(l.x["iter"], A):
                it = l.x["iter"]
                inner = it
                if not ext_call(it, "sorted"):
                    if any(ext_call(x, "sorted") for x in terms(it)):
                        return None
                    return "arguments are not brought into the order of their names"
                if dict(it[3]):
                    kws = dict(it[3])
                    if kws.get("key", NONE)[0] == "ext" and kws["key"][1] in ("len", "hash", "id", "type") or (
                            kws.get("key", NONE)[0] == "attr" and kws["key"][2] in ("lower", "casefold", "upper", "swapcase")):
                        return "arguments are not brought into one order of their names"
                    if set(kws) - {"reverse"}:
                        return None
                src = it[2][0]
                if src != A and not (src[0] == "call" and src[1] == ("attr", A, "keys")) and not (
                        src[0] == "call" and src[1] == ("attr", A, "items")):
                    return "some arguments are left out" if contains(src, A) and src[0] in ("item",) else None
                if not any(e.kind == "setitem" for _, xs, _ in l.x["iters"] for e in flat_events(xs)):
                    continue        # nothing is kept here
                for k, xs, gs in l.x["iters"]:
                    if k == "raise":
                        continue
                    w = [e for e in flat_events(xs) if e.kind == "setitem" and e.recv == SELF]
                    if k != "next" or not w:
                        return "some arguments are left out"
                    key, v = unver(w[0].args["key"]), unver(w[0].args["value"])
                    if key[0] == "call" and key[1][0] == "attr" and key[1][2] in (
                            "lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "replace") or (
                            key[0] == "item" and key[2][0] == "slice"):
                        return "arguments with similar names replace each other"
                    if not elem_src(key) and key[0] != "elem":
                        return None
                    if contains(v, A) and v[0] == "item" and v[2] != key:
                        return "arguments get each other's values"
                    if not contains(v, A):
                        return "an argument does not keep its value"
                done = True
        if done:
            return True
        up = [e for e in events(p) if e.kind == "call" and last(e) in ("update", "__init__")
              and any(ext_call(x, "sorted") for v in e.args.values() for x in terms(v))]
        for e in up:
            for v in e.args.values():
                if v[0] == "kveach":
                    v = ("dict", (v,))
                r = by_item(v)
                if r is not None and r[0] == A and any(ext_call(x, "sorted") for x in terms(v[1][0][3])):
                    return r[1]
        if up:
            return None
        return "arguments are not brought into the order of their names" if not any(
            ext_call(x, "sorted") for e in events(p) for v in e.args.values() for x in terms(v)) else None
    ctx.forall("SortedKwArgs", ps, srt, "all arguments, sorted by name", need=1)

    def conv(name, good, what):
        m = c.find(name)
        if m is None:
            ctx.check(name, None, c.loc(), "no such method")
            return
        pp = ctx.run(m, cls=c, exc="none")

        def one(p):
            if p.kind != "return":
                return None
            v = p.value
            # built by a loop with setitem, or from a comprehension
            for l in p.events:
                if l.kind != "loop" or l.x["iter"] is None:
                    continue
                it = unver(l.x["iter"])
                if not contains(it, SELF):
                    continue
                if it != SELF and not (it[0] == "call" and it[1][0] == "attr" and it[1][1] == SELF and it[1][2] in ("items", "keys")) \
                        and strip_wrappers(it) != SELF:
                    return "some arguments are left out" if it[0] == "item" else None
                if not any(e.kind == "setitem" for _, xs, _ in l.x["iters"] for e in flat_events(xs)):
                    continue        # nothing is collected here
                for k, xs, gs in l.x["iters"]:
                    if k == "raise":
                        continue
                    w = [e for e in flat_events(xs) if e.kind == "setitem"]
                    if k != "next" or not w:
                        return "some arguments are left out"
                    if unver(w[-1].recv) != unver(v):
                        return None
                    key, val = unver(w[-1].args["key"]), unver(w[-1].args["value"])
                    r = good(key, val, gs)
                    if r is not True:
                        return r
                return True
            d = v
            if cls_call(v, "SortedKwArgs"):
                d = dict(v[3]).get("kargs", v)
                if d == v or d == ("dict", ()):
                    return "some arguments are left out"
            if d[0] == "kveach":
                d = ("dict", (d,))
            if d[0] == "dict" and d[1]:
                for x in d[1]:
                    if x[0] != "kveach":
                        return None
                    it = unver(x[3])
                    if it != SELF and not (it[0] == "call" and it[1][0] == "attr" and it[1][1] == SELF):
                        return None
                    r = good(unver(x[1]), unver(x[2]), x[4] if len(x) > 4 else ())
                    if r is not True:
                        return r
                return True
            return None
        ctx.forall(name, pp, one, what, need=1)

    def val_ok(key, x):
        """x is the value of the argument key"""
        if x == ("item", SELF, key):
            return True
        return False

    def packs(key, val, gs):
        if cls_call(val, "ValueAddr"):
            d = dict(val[3]).get("data")
            if val_ok(key, d):
                return True
            return "an argument gets the address of something else" if not contains(d, ("item", SELF, key)) else None
        if val_ok(key, val):
            if any(g[0][0] == "isinstance" and g[1] and str(g[0][2]).split(".")[-1] == "ValueAddr" for g in gs):
                return True
            return "an argument is not replaced by its address"
        return None

    def unpacks(key, val, gs):
        isa = [g[1] for g in gs if unver(g[0])[0] == "isinstance" and str(g[0][2]).split(".")[-1] in ("ValueAddr", "HashAddr")
               and val_ok(key, unver(g[0])[1])]
        if fn_name(val) == "get" and val_ok(key, recv_of(val)):
            return True if isa and isa[-1] else ("a plain argument is taken for an address" if isa else None)
        if val_ok(key, val):
            if not isa:
                return "addresses are not replaced by their values" if not gs else None
            return not isa[-1] or "addresses are not replaced by their values"
        return None
    conv("pack", packs, "every argument is replaced by its address")
    conv("unpack", unpacks, "every address is replaced by its value")


@rule("C30", "address", "the address of a result is that of the signature of the call")
def c30_addr(ctx):
    c = ctx.P.cls(RA)
    f = c.find("__init__")
    fn, ar = [sym(x) for x in f.params()[0][1:3]]
    ps = ctx.run(f, cls=c, exc="none")

    def full_args(t):
        return core(t) == ar

    def ok(p):
        if p.kind != "return":
            return True
        i = [e for e in events(p) if e.kind == "call" and last(e) == "__init__" and e.recv == SELF]
        if not i:
            return None
        a = i[-1].args.get("args")
        it = seq_items(a) if a is not None else None
        if it is None or len(it) != 2:
            return None
        h = it[1]
        if h[0] == "item" and h[2][0] == "slice" and (is_attr(h[1], "hash_signature") or fn_name(h[1]) == "hash_signature"):
            return "the address depends on a part of the signature only"
        if not is_attr(h, "hash_signature") and fn_name(h) != "hash_signature":
            return None if contains(h, fn) else "the address does not depend on the function"
        v = h[1] if h[0] == "attr" else recv_of(h)
        if not cls_call(v, "ValueAddr"):
            return None
        s = dict(v[3]).get("data")
        if not cls_call(s, CS):
            return "the address is not that of the signature of the call"
        d = dict(s[3])
        if d.get("a_fn") != fn:
            return "the address is that of another function"
        if d.get("arguments") is None or not full_args(d["arguments"]):
            return "the address does not depend on all arguments" if d.get("arguments") is not None and (not contains(
                d["arguments"], ar) or lossy(d["arguments"], ar)) else None
        pre = it[0]
        if not contains(pre, ("attr", fn, "fn_name")):
            return "the address does not name the function" if not has_call(pre, "fn_name") else None
        noisl = any(g == ("isnone", ("attr", fn, "island_name")) and b for g, b, _ in p.guards)
        if not noisl and not contains(pre, ("attr", fn, "island_name")):
            return "the address does not name the island"
        po = i[-1].args.get("portal")
        if po is not None and po != ("attr", fn, "portal") and not (fn_name(po) == "portal" and recv_of(po) == fn):
            return "the address is bound to another portal than the function"
        w = {e.name: e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF}
        if "_function" in w and w["_function"] != fn:
            return "the address remembers another function"
        if "_arguments" in w:
            if not full_args(w["_arguments"]):
                return "the address remembers other arguments"
            if not has_call(w["_arguments"], "pack"):
                return "the address remembers live objects as its arguments"
        return True
    ctx.forall("address", ps, ok, "hash of the signature, name of the function", need=1)
    g = c.find("get_ValueAddr")
    pg = ctx.run(g, cls=c, exc="none")
    cname = CS.lower()

    def back(p):
        if p.kind != "return":
            return None
        v = p.value
        if fn_name(v) != "from_strings":
            return None
        d = dict(v[3])
        pre = d.get("prefix")
        h = d.get("hash_signature")
        pv = teval(pre, lambda t: UNK) if pre is not None else None
        if pre is not None and pre[0] == "call" and pre[1][0] == "attr" and pre[1][2] == "lower" and not pre[2]:
            x = teval(pre[1][1], lambda t: UNK)
            pv = x.lower() if isinstance(x, str) else UNK
        if pv is UNK:
            return None
        if pv != cname:
            return "the signature of a call is looked for under another kind of address"
        if h is None or not own(h, "hash_signature"):
            return "the signature of another call is looked for" if h is not None and is_c(h) else None
        return True
    ctx.forall("get_ValueAddr", pg, back, "the signature is found from the address", need=1)
    b = ctx.P.cls("ValueAddr").find("_build_prefix")
    if b is not None:
        pb = ctx.run(b, cls=ctx.P.cls("ValueAddr"), exc="none")
        x = sym([q for q in b.params()[0] if q not in ("self", "cls")][-1])

        def pref(p):
            if p.kind != "return":
                return None
            v = p.value
            if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "lower":
                n = v[1][1]
                if is_attr(n, "__name__") and (n[1] == ("typeof", x) or ext_call(n[1], "type")
                                               or is_attr(n[1], "__class__")):
                    return True
            return None
        ctx.forall("kind of an address", pb, pref, "the name of the class in lower case", need=1)


@rule("C30", "recovery", "function and arguments are recovered from the address")
def c30_back(ctx):
    c = ctx.P.cls(RA)

    def sig(t):
        """t is the signature found through the own address"""
        return fn_name(t) == "get" and recv_of(t) is not None and fn_name(recv_of(t)) == "get_ValueAddr" \
            and recv_of(recv_of(t)) == SELF

    def rec(name, cache, field):
        f = c.find(name)
        ps = ctx.run(f, cls=c, exc="none")

        def ok(p):
            if p.kind != "return":
                return None
            v = unver(p.value)
            if cache and is_attr(v, cache, SELF):
                h = [b for g, b, _ in p.guards if g == ("hasattr", SELF, cache)]
                return bool(h and h[0]) or None
            if fn_name(v) == "get" and is_attr(unver(recv_of(v)), field) and sig(unver(recv_of(v))[1]):
                for e in events(p):
                    if e.kind == "setattr" and e.recv == SELF and e.name == cache and unver(e.args["value"]) != v:
                        return "something else is remembered"
                return True
            if v[0] == "item" and has_attr(v[1], "known_functions"):
                return "the function of that name known here is given instead of the recorded one"
            other = {"fn_addr", "args_addr"} - {field}
            if fn_name(v) == "get" and is_attr(unver(recv_of(v)), *other):
                return f"{name} of an address are something else"
            return None
        ctx.forall(name, ps, ok, "that of the signature", need=1)
    rec("function", "_function", "fn_addr")
    rec("arguments", "_arguments", "args_addr")

    def fwd(name, test):
        f = c.find(name)
        if f is None:
            ctx.check(name, None, c.loc(), "no such property")
            return
        ps = ctx.run(f, cls=c, exc="none")
        def ok(p):
            if p.kind != "return":
                return None
            v = unver(p.value)
            r = test(v)
            if r is not None:
                return r
            if any(own(x, "prefix", "str_chain", "strings") for x in terms(v)) or has_call(v, "__getitem__") or any(
                    x[0] == "item" and x[1] == SELF for x in terms(v)):
                return f"{name} is guessed from the text of the address"
            if not any(own(x, *FNS, "arguments", "_arguments", "kwargs") or fn_name(x) == "get_ValueAddr" for x in terms(v)):
                return f"{name} has nothing to do with the address" if v[0] in ("attr", "c") else None
            return None
        ctx.forall(name, ps, ok, "recovered from the address", need=1)
    FNS = ("function", "fn", "_function")
    fwd("fn", lambda v: own(v, *FNS) or None)
    fwd("kwargs", lambda v: True if fn_name(v) == "unpack" and own(recv_of(v), "arguments", "_arguments") else
        "arguments are reported as addresses" if own(core(v), "arguments", "_arguments") and not has_call(v, "unpack", "get") else None)

    def prop(n):
        def t(v):
            if is_attr(v, n) and (own(v[1], *FNS) or sig(v[1])):
                return True
            if v[0] == "attr" and (own(v[1], *FNS) or sig(v[1])):
                return f"{v[2]} is reported as {n}"
            if fn_name(v) == n and own(recv_of(v), *FNS):
                return True
            return None
        return t
    for n in ("fn_name", "island_name", "fn_source_code"):
        fwd(n, prop(n))
    # every way to name a call gives the same address
    f = ctx.P.cls(PF)
    ps = ctx.run(f.find("get_address"), cls=f, exc="none")
    ctx.forall("get_address", ps, lambda p: call_addr(p.value) if p.kind == "return" else None,
               "the address of the call", need=1)
    for n in ("swarm", "run"):
        ps = ctx.run(f.find(n), cls=f, exc="none")
        ctx.forall(n, ps, lambda p: call_addr(p.value) if p.kind == "return" else None, "the address of the call", need=1)
    ps = ctx.run(f.find("execute"), cls=f, exc="none")

    def ex(p):
        for e in bodies(p):
            v = kw(e)
            if v is None or core(v) != sym("kwargs"):
                return "the function is executed with other arguments" if v is None or not contains(v, sym("kwargs")) else None
        return True
    ctx.forall("execute", ps, ex, "executed with the arguments of the call", sel=lambda p: bool(bodies(p)), need=2)


# ------------------------------------------------------------------ C31
def req_sets(p, recv=None):
    return [e for e in events(p) if e.kind == "setitem" and is_attr(unver(e.recv), "execution_requests") and not failed(e)]


def req_dels(p):
    return [e for e in events(p) if not failed(e) and (
        (e.kind == "delitem" and is_attr(unver(e.recv), "execution_requests")) or
        (e.kind == "call" and e.recv is not None and is_attr(unver(e.recv), "execution_requests")
         and last(e) in ("delete_if_exists", "pop", "__delitem__", "discard")))]


def own_portal(t):
    """t is the storage of the portal of self"""
    t = unver(t)
    return t[0] == "attr" and (unver(t[1]) == ("attr", SELF, "portal") or
                               (fn_name(t[1]) == "portal" and recv_of(t[1]) == SELF))


@rule("C31", "request", "a request is recorded exactly when the result is missing")
def c31_req(ctx):
    c = ctx.P.cls(RA)
    ps = ctx.run(c.find("request_execution"), cls=c, exc="none")

    def atom(t, v):
        a = ready_of(t)
        if a == SELF:
            return v["ready"]
        if t[0] == "in" and t[1] == SELF and is_attr(unver(t[2]), "execution_requests"):
            return v["queued"]
        if own(t, "execution_requested"):
            return v["queued"]
        return UNK

    def out(p, exp):
        s = req_sets(p)
        d = req_dels(p) + [e for e in events(p) if e.kind == "call" and last(e) == "drop_execution_request"]
        if p.kind != "return":
            return "a request fails"
        if exp == "drop":
            if s:
                return "a call is requested although its result is available"
            return bool(d) or "a request whose result is available stays"
        if d:
            return "a request is removed although the result is missing"
        if exp == "set":
            if not s:
                return "the call is not requested"
            for e in s:
                if e.args["key"] != SELF:
                    return "another call is requested"
                if not own_portal(e.recv):
                    return "the call is requested in another portal" if not contains(unver(e.recv), SELF) else None
            return True
        return True
    ctx.table("request_execution", ps, [
        ("result available", dict(ready=True, queued=True), "drop"),
        ("result missing", dict(ready=False, queued=False), "set"),
        ("already requested", dict(ready=False, queued=True), "keep")], atom, out, "the queue reflects what is missing")
    pd_ = ctx.run(c.find("drop_execution_request"), cls=c, exc="none")

    def drop(p):
        if p.kind != "return":
            return "removing a request fails"
        d = req_dels(p)
        if not d:
            for g, b, _ in p.guards:
                if atom(g, dict(queued=True)) is True and not b:
                    return True
            return "the request is not removed"
        for e in d:
            k = e.args.get("key") or next(iter(e.args.values()), None)
            if k != SELF:
                return "the request of another call is removed"
            if not own_portal(e.recv):
                return "the request is removed from another portal" if not contains(unver(e.recv), SELF) else None
            if e.kind == "delitem" or last(e) in ("pop", "__delitem__"):
                if last(e) == "pop" and len(e.args) > 1:
                    continue
                if not any(atom(g, dict(queued=True)) is True and b for g, b, _ in p.guards):
                    return "removing a request that does not exist fails"
        return True
    ctx.forall("drop_execution_request", pd_, drop, "the request of the call is removed", need=1)
    pq = ctx.run(c.find("execution_requested"), cls=c, exc="none")

    def asked(p):
        if p.kind != "return":
            return None
        v = p.value
        if v[0] == "in" and v[1] == SELF and is_attr(unver(v[2]), "execution_requests") and own_portal(v[2]):
            return True
        if is_c(v):
            for g, b, _ in p.guards:
                if g[0] == "in" and g[1] == SELF and is_attr(unver(g[2]), "execution_requests"):
                    return v[2] == b or "the answer is wrong"
            return "the queue is not looked at"
        return None
    if any(has_call(g, "ready") for p in pq for g, _, _ in p.guards) or any(
            isinstance(p.value, tuple) and has_call(p.value, "ready") for p in pq):
        for r in (True, False):
            for q in (True, False):
                row = dict(ready=r, queued=q)
                ctx.table("execution_requested", pq, [(f"queued={q}, ready={r}", row, q)], atom,
                          lambda p, e: None if p.kind != "return" else
                          {UNK: None}.get(teval(p.value, lambda t: atom(t, row)),
                                          bool(teval(p.value, lambda t: atom(t, row))) == e or "the answer is wrong")
                          if teval(p.value, lambda t: atom(t, row)) is not UNK else None, "the queue is looked at")
    else:
        ctx.forall("execution_requested", pq, asked, "the queue is looked at", need=1)


@rule("C31", "execution", "a request lasts until the call has succeeded")
def c31_exec(ctx):
    c = ctx.P.cls(PF)
    f = c.find("execute")
    ps = ctx.run(f, cls=c, exc="none")

    def is_req(e):
        return e.kind == "call" and last(e) == "request_execution" and e.recv is not None and is_addr(e.recv)

    def is_drop(e):
        return e.kind == "call" and last(e) == "drop_execution_request" and e.recv is not None and is_addr(e.recv)

    def ok(p):
        evs = events(p)
        b = bodies(p)
        if not b:
            return True
        ib = evs.index(b[0])
        r = [i for i, e in enumerate(evs) if is_req(e)] + [i for i, e in enumerate(evs) if e in req_sets(p)]
        if not r or min(r) > ib:
            return "the function is executed without a request that would survive a crash" if not r else \
                "the request is recorded after the execution"
        d = [i for i, e in enumerate(evs) if is_drop(e)] + [i for i, e in enumerate(evs) if e in req_dels(p)]
        w = [i for i, e in enumerate(evs) if e.kind == "setitem" and is_attr(e.recv, "execution_results")]
        if d and w and min(d) < w[-1]:
            return "the request is removed before the result is stored"
        if p.kind == "return" and w and not d:
            return "the request of an executed call stays"
        return True
    ctx.forall("execute", ps, ok, "requested before, removed after the result is stored", sel=lambda p: bool(bodies(p)), need=2)
    pa = ctx.run(f, cls=c, exc="all", opaque=("portal",),
                 raises=lambda e: e.kind in ("call", "setitem") and last(e) in ("execute", "[]=", "can_be_executed"))

    def fails(p):
        evs = events(p)
        bad = [i for i, e in enumerate(evs) if failed(e) and (e in bodies(p) or (e.kind == "setitem" and is_attr(e.recv, "execution_results")))]
        if not bad:
            return True
        for i, e in enumerate(evs):
            if (is_drop(e) or e in req_dels(p)):
                return "the request of a call that failed is removed"
        return True
    ctx.forall("execute: failing", pa, fails, "the request of a failed call stays", need=2)
    a = ctx.P.cls(RA)
    pg = ctx.run(a.find("get"), cls=a, exc="none")

    def waits(p):
        evs = events(p)
        r = [e for e in evs if e.kind == "call" and last(e) == "request_execution" and e.recv == SELF]
        sl = [i for i, e in enumerate(evs) if e.kind == "call" and last(e) == "sleep"]
        d = [e for e in evs if (e.kind == "call" and last(e) == "drop_execution_request") or e in req_dels(p)]
        if sl and not r and not req_sets(p):
            return "a result is waited for that nobody was asked to compute"
        if p.kind == "raise" and d:
            return "the request of a call that was not executed is removed"
        if p.kind == "return" and r and not d and is_c(p.value) is False:
            return "the request of a call whose result was found stays"
        return True
    ctx.forall("get", pg, waits, "waiting requests the call", need=2)
    s = c.find("swarm")
    pw = ctx.run(s, cls=c, exc="none")

    def swarm(p):
        if p.kind != "return":
            return None
        if any(e.kind == "call" and last(e) == "execute" for e in events(p)):
            return "swarming executes the function at once"
        r = [e for e in events(p) if e.kind == "call" and last(e) == "request_execution"]
        if not r:
            return "swarming does not request the execution" if not req_sets(p) else None
        return r[0].recv == p.value or None
    ctx.forall("swarm", pw, swarm, "requested, not executed", need=1)


# ------------------------------------------------------------------ C32
def clock(t):
    return t[0] == "call" and t[1][0] == "ext" and t[1][1] in (
        "time.time", "time.monotonic", "time.perf_counter", "time", "monotonic", "perf_counter")


def tick(t):
    return t[4] if len(t) > 4 else 0


@rule("C32", "what is returned", "only a stored result is returned, and nothing is executed")
def c32_value(ctx):
    c = ctx.P.cls(RA)
    f = c.find("get")
    ps = ctx.run(f, cls=c, exc="none")

    def ok(p):
        if any(e.kind == "call" and last(e) in ("execute", "__call__") for e in events(p)):
            return "retrieving a result executes the function"
        if p.kind != "return":
            return True
        if is_attr(unver(p.value), "_result", SELF):
            h = [b for g, b, _ in p.guards if g == ("hasattr", SELF, "_result")]
            if h and h[0]:
                return True
        m = memo_addr(p.value)
        if m is not True:
            v = unver(p.value)
            if v[0] == "item" and is_attr(v[1], "execution_results"):
                return "the address of the result is returned instead of the result"
            return "something else than the stored result is returned" if is_c(v) else None
        rd = [b for g, b, _ in p.guards if g[0] == "truthy" and ready_of(g[1]) == SELF]
        rd += [b for g, b, _ in p.guards if g[0] == "in" and g[1] == SELF and is_attr(unver(g[2]), "execution_results")]
        if not rd:
            return "the result is read without looking whether there is one"
        return rd[-1] or "a result is read although there is none"
    ctx.forall("get", ps, ok, "the stored result", need=3)


@rule("C32", "waiting", "get waits as long as it was told to")
def c32_wait(ctx):
    c = ctx.P.cls(RA)
    f = c.find("get")
    ps = ctx.run(f, cls=c, exc="none")
    TO = sym("timeout")

    def atom(t, v):
        if clock(t):
            return 1000.0 if tick(t) == 0 else v["now"]
        if t == TO:
            return v["to"]
        a = ready_of(t)
        if a == SELF:
            return v.get("ready", UNK)
        if fn_name(t) == "uniform":
            return 0.0
        if t[0] == "mu":
            cs = [x for x in ps.it.mus.get(t, ()) if is_c(x) and isinstance(x[2], (int, float))]
            return cs[0][2] if len(cs) == 1 else UNK
        return UNK

    def out(p, exp):
        if exp == "bad":
            return p.kind == "raise" or "a negative timeout is accepted"
        if p.kind == "raise" and p.value[1] == "TimeoutError":
            if exp == "forever":
                return "waiting without a timeout ends with an error"
            if exp == "wait":
                return "the waiting ends before the time is over"
            return True
        if p.kind == "raise":
            own_assert = p.value[1] == "AssertionError" and any(contains(g, TO) for g, _, _ in p.guards) \
                and not any(True for _ in loops(p.events))
            if p.value[1] != "AssertionError" and p.value[2][0] != "from":
                return f"the waiting ends with {p.value[1]}"
            return "a legitimate timeout is refused" if own_assert or p.value[1] in ("ValueError", "TypeError") else None
        for l in loops(p.events):
            if l.x["iter"] is not None:
                continue
            nx = [gs for k, xs, gs in l.x["iters"] if k == "next"]
            alive = [gs for gs in nx if gconsistent(gs, lambda t: atom(t, exp_val[0]))]
            if exp == "over" and alive:
                sure = [gs for gs in alive if not [g for g in gs if teval(g[0], lambda t: atom(t, exp_val[0])) is UNK
                                                   and contains(g[0], TO)]]
                return "the waiting goes on after the time is over" if sure else None
            if exp in ("wait", "forever") and nx and not alive:
                return "the waiting ends before the time is over"
        return True
    exp_val = [None]
    for lab, v, e in (("no timeout", dict(to=None, now=99999.0), "forever"),
                      ("in time", dict(to=5, now=1004.9), "wait"),
                      ("too late", dict(to=5, now=1005.5), "over"),
                      ("no time at all", dict(to=0, now=1001.0), "over"),
                      ("fraction", dict(to=2.75, now=1002.5), "wait"),
                      ("long wait", dict(to=1000.0, now=1999.0), "wait"),
                      ("negative", dict(to=-1, now=1001.0), "bad")):
        exp_val[0] = v
        ctx.table("get", ps, [(lab, v, e)], atom, out, "waits exactly until the time is over")

    def due(p):
        if p.kind != "raise" or p.value[1] != "TimeoutError":
            return True
        for g, b, _ in p.guards:
            if any(clock(x) for x in terms(g)) and contains(g, TO):
                v = [teval(g, lambda t: atom(t, dict(to=5, now=n))) for n in (1004.9, 1005.1)]
                if UNK not in v and [bool(x) for x in v] == [not b, b]:
                    return True
        return "the waiting ends for another reason than the time being over"
    ctx.forall("timeouts", ps, due, "only once the time is over", need=2)

    def pause(p):
        n = 0
        for l in loops(p.events):
            if l.x["iter"] is not None:
                continue
            for k, xs, gs in l.x["iters"]:
                if k != "next":
                    continue
                n += 1
                sl = [e for e in flat_events(xs) if e.kind == "call" and last(e) == "sleep"]
                rd = [i for i, e in enumerate(xs) if (e.kind == "call" and last(e) == "ready")]
                if not rd and not any(g[0][0] in ("truthy", "in") and contains(g[0], SELF) for g in gs):
                    return "waiting does not look whether the result has arrived"
                if not sl:
                    return "waiting burns the processor"
                a = sl[0].args.get("0") or next(iter(sl[0].args.values()))
                r = positive(a, ps.it.mus)
                if r is not True:
                    return r
                if any(unver(g[0]) == ("isnone", TO) and not g[1] for g in p.guards):
                    src = [a] if a[0] != "mu" else list(ps.it.mus.get(a, ()))
                    if not any(contains(s, TO) for s in src):
                        if any(is_c(s) or s[0] == "call" for s in src):
                            return "waiting sleeps past the end of the time"
                        return None
        return True if n else None
    def bounded(p):
        """concretely: how long the next pause may be"""
        seen = False
        for l in loops(p.events):
            if l.x["iter"] is not None:
                continue
            nxt = [i for i in l.x["iters"] if i[0] == "next"]
            for (k, xs, gs), new in zip(nxt, l.x.get("next", ())):
                sl = [e for e in flat_events(xs) if e.kind == "call" and last(e) == "sleep"]
                if not sl:
                    continue
                a = sl[0].args.get("0") or next(iter(sl[0].args.values()))
                for to, now, pre in ((5, 1002.0, 64.0), (5, 1002.0, 2.5), (100, 1001.0, 1.0), (5, 1004.5, 64.0), (1, 1000.5, 1.0)):
                    def at(t, to=to, now=now, pre=pre):
                        if t == a and t[0] == "mu":
                            return pre
                        v = atom(t, dict(to=to, now=now, ready=False))
                        return v
                    outer = [g for g in p.guards if not any(clock(x) or x[0] == "mu" or ready_of(x) is not None for x in terms(g[0]))]
                    if not gconsistent(outer, at) or not gconsistent(gs, at):
                        continue
                    nv = teval(new[a], at) if a[0] == "mu" and a in new else teval(a, at)
                    if a[0] == "mu" and a not in new:
                        nv = pre
                    if nv is UNK or isinstance(nv, bool) or nv is None:
                        continue
                    seen = True
                    if nv > max(1.0, 1000.0 + to - now) + 1e-6:
                        return f"with {1000.0 + to - now:g} seconds left it pauses for {nv:g} seconds"
        return True if seen else None
    pt = [p for p in ps if any(l.x["iter"] is None for l in loops(p.events))
          and not any(unver(g[0]) == ("isnone", TO) and g[1] for g in p.guards)]
    ctx.forall("length of pauses", ps, bounded, "no pause goes past the end of the time", paths=pt, need=1)
    ctx.forall("pauses", ps, pause, "looks, then pauses for a positive time that respects the deadline",
               sel=lambda p: any(l.x["iter"] is None for l in loops(p.events)), need=2)


def positive(t, mus, depth=0):
    if is_c(t):
        return t[2] > 0 or "a pause may be zero or negative"
    if t[0] == "mu" and depth < 4:
        rs = [positive(x, mus, depth + 1) for x in mus.get(t, ()) if x != t]
        if not rs:
            return None
        bad = [r for r in rs if r is not True]
        return True if not bad else next((b for b in bad if isinstance(b, str)), None)
    if t[0] == "call" and t[1] == ("ext", "max"):
        if any(positive(x, mus, depth + 1) is True for x in t[2]):
            return True
        return "a pause may be zero or negative"
    if t[0] == "call" and t[1] == ("ext", "min"):
        rs = [positive(x, mus, depth + 1) for x in t[2]]
        return True if all(r is True for r in rs) else next((r for r in rs if isinstance(r, str)), None)
    if t[0] == "op" and t[1] in ("*", "+", "/"):
        rs = [positive(x, mus, depth + 1) for x in t[2:]]
        if all(r is True for r in rs):
            return True
        if any(fn_name(x) in ("uniform", "random", "gauss") for x in t[2:]):
            return "a pause may be zero or negative"
        return None
    if t[0] == "op" and t[1] == "-":
        return "a pause may be zero or negative"
    if fn_name(t) == "uniform":
        return positive(t[2][0], mus, depth + 1) if t[2] else None
    return None


# ------------------------------------------------------------------ C35
@rule("C35", "policy", "which calls workers should execute")
def c35(ctx):
    c = ctx.P.cls(RA)
    ps = ctx.run(c.find("needs_execution"), cls=c, exc="none", stable=("execution_attempts",))

    def attempts(t):
        return own(t, "execution_attempts")

    def other(t):
        return any(own(x, "execution_results", "execution_outputs", "crashes", "events", "execution_records",
                       "execution_requested", "can_be_executed", "last_execution_result", "last_execution_output",
                       "last_crash", "last_event") for x in terms(t))

    def stamps(t):
        t = strip_wrappers(t)
        if t[0] != "list" or len(t[1]) != 1 or t[1][0][0] != "each":
            return False
        x = t[1][0]
        return fn_name(x[1]) == "timestamp" and attempts(recv_of(x[1])) and not x[3] and attempts(strip_wrappers(x[2]))

    def atom(t, v):
        if ready_of(t) == SELF:
            return v["ready"]
        if t in (("hasattr", SELF, "_ready"), ("hasattr", SELF, "_result")) and not v["ready"]:
            return False
        if clock(t):
            return 1e9
        if t[0] == "truthy" and attempts(t[1]):
            return v["n"] > 0
        if ext_call(t, "len") and (attempts(t[2][0]) or (stamps(t[2][0]))):
            return v["n"]
        if t[0] == "truthy" and stamps(t[1]):
            return v["n"] > 0
        if ext_call(t, "max") and len(t[2]) == 1 and stamps(t[2][0]):
            return 1e9 - v["age"]
        if ext_call(t, "min") and len(t[2]) == 1 and stamps(t[2][0]):
            return 1e9 - v["age"] - 5000
        if t[0] == "item" and ext_call(t[1], "sorted") and stamps(t[1][2][0]) and t[2] == C(-1):
            return 1e9 - v["age"]
        return UNK

    def out(p, exp):
        if p.kind != "return":
            return "the question fails" if p.kind == "raise" else None
        v = teval(p.value, lambda t: atom(t, row[0]))
        unk = [g for g, b, _ in p.guards if teval(g, lambda t: atom(t, row[0])) is UNK]
        if any(other(g) for g, _, _ in p.guards) or other(p.value):
            return "something else than the attempts is counted"
        for g in [g for g, _, _ in p.guards] + [p.value]:
            if any(ext_call(x, "monotonic", "perf_counter", "process_time", "thread_time") for x in terms(g)):
                return "the age is measured with a clock that does not run across processes"
            if any(x[0] == "item" and (x[2][0] == "slice" or ext_call(x[2], "slice")) and any(attempts(y) for y in terms(x[1]))
                   for x in terms(g)):
                return "some of the attempts are not looked at"
            for x in terms(g):
                k = call_arg(x, "key", 0) if fn_name(x) == "timestamp" and recv_of(x) is not None and attempts(recv_of(x)) else None
                if k is not None and k[0] == "item" and is_c(k[2]):
                    src = strip_wrappers(k[1])
                    src = recv_of(src) if fn_name(src) in ("keys", "__iter__") else src
                    if attempts(src) and not (ext_call(k[1], "sorted") and k[1][3]):
                        return "the time of one attempt is looked at, which need not be the newest"
        if any(g == ("hasattr", SELF, "_ready") and not b for g, b, _ in p.guards) and not any(
                ready_of(x) == SELF for g, _, _ in p.guards for x in terms(g)):
            return "a result is taken to be missing without a look"
        if v is UNK or unk:
            return None
        return bool(v) == exp or ("a call that should be executed is passed over" if exp else
                                  "a call that should be left alone is executed")
    row = [None]
    rows = [("result available", dict(ready=True, n=0, age=1e6), False),
            ("result available, tried before", dict(ready=True, n=3, age=1e6), False),
            ("never tried", dict(ready=False, n=0, age=0), True)]
    for n in range(1, 6):
        rows.append((f"{n} attempts, in time", dict(ready=False, n=n, age=10 * 2 ** n - 1), False))
        rows.append((f"{n} attempts, overdue", dict(ready=False, n=n, age=10 * 2 ** n + 1), True))
    for n in (6, 7, 50):
        rows.append((f"{n} attempts", dict(ready=False, n=n, age=1e7), False))
    for lab, v, e in rows:
        row[0] = v
        ctx.table("needs_execution", ps, [(lab, v, e)], atom, out, "as documented")


# ------------------------------------------------------------------ C46
@rule("C46", "lists", "one address per set of arguments, in their order")
def c46(ctx):
    c = ctx.P.cls(PF)
    f = c.find("swarm_list")
    L = sym(f.params()[0][1])
    ps = ctx.run(f, cls=c, exc="none")

    def isa(g):
        return g[0][0] == "isinstance"

    def aligned(t):
        """t is [address of the call with x for x in L]"""
        t0 = t
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "tuple", "copy.copy") and len(t[2]) == 1:
            return aligned(t[2][0])
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("sorted", "reversed", "set"):
            return "the addresses come in another order"
        if t[0] == "list" and len(t[1]) == 1 and t[1][0][0] == "*":
            return aligned(t[1][0][1])
        if t[0] != "list":
            return None
        if not t[1]:
            return "the addresses are lost"
        for x in t[1]:
            if x[0] != "each":
                return None
            a, src, gs = x[1], x[2], x[3]
            if any(not isa(g) for g in gs):
                return "some sets of arguments get no address"
            if src != L and not (src[0] == "call" and src[1][0] == "ext" and src[1][1] in ("list", "tuple") and src[2][0] == L):
                if src[0] == "call" and src[1][0] == "ext" and src[1][1] in ("sorted", "reversed", "set"):
                    return "the addresses come in another order"
                if src[0] == "item":
                    return "some sets of arguments get no address"
                if src[0] == "call" and src[1] == ("ext", "enumerate"):
                    return None
                return None
            el = ("elem", src)
            if call_addr(a, kwargs=el) is not True:
                r = call_addr(a, kwargs=el)
                return r if r is not None else None
        return True if len(t[1]) == 1 else None

    def shuffled(p, refs):
        for e in events(p):
            if e.kind == "call" and last(e) in ("shuffle", "sort", "reverse") and (e.x or {}).get("refs"):
                if p.raw in e.x["refs"]:
                    return True
        return False

    def lists(p):
        if p.kind != "return":
            req = [e for e in events(p) if last(e) == "request_execution"]
            return not req or "some calls are requested before the input is refused"
        r = aligned(p.value)
        if r is not True:
            return r
        if p.raw is not None and p.raw[0] == "ref" and shuffled(p, None):
            return "the addresses come in a random order"
        reqs = False
        for l in p.events:
            if l.kind == "loop" and l.x["iter"] == L and p.value[0] == "list" and any(
                    e.kind == "call" and e.name == RA for k, xs, _ in l.x["iters"] for e in xs):
                took = [{(unver(g[0]), g[1]) for g in x[3]} for x in p.value[1] if x[0] == "each"]
                for k, xs, gs in l.x["iters"]:
                    if k == "next" and took and not any(t <= {(unver(g[0]), g[1]) for g in gs} for t in took):
                        return "some sets of arguments get no address"
            if l.kind == "loop" and l.x["iter"] is not None:
                rq = [[e for e in flat_events(xs) if last(e) == "request_execution"] for k, xs, gs in l.x["iters"] if k != "raise"]
                if any(rq):
                    if not all(rq) or any(k not in ("next", "raise") for k, _, _ in l.x["iters"]):
                        return "some calls are not requested"
                    el = rq[0][0].recv
                    el = el if el is not None else NONE
                    if is_addr(el, kwargs=("elem", L)) or el[0] == "elem" or elem_src(el):
                        reqs = True
        if any(last(e) == "execute" for e in events(p)):
            return "swarming executes the calls at once"
        if not reqs:
            return "the calls are not requested" if not any(last(e) == "request_execution" for e in events(p)) else None
        return True
    ctx.forall("swarm_list", ps, lists, "aligned with the input, all requested", need=1)

    def okin(p):
        """without the input being a list or tuple nothing happens"""
        return True

    def atom(t, v):
        if t[0] == "isinstance" and t[1] == L:
            return v["lst"] if str(t[2]).split(".")[-1] in ("list", "tuple") else UNK
        return UNK
    ctx.table("swarm_list", ps, [("no list", dict(lst=False), None)], atom,
              lambda p, e: p.kind == "raise" or "an input that is no list is accepted", "refused")
    cand = [p for p in ps if p.kind == "return"]
    def items(p):
        if any(g[0] == "isinstance" and elem_src(g[1]) == L for l in loops(p.events) for k, xs, gs in l.x["iters"]
               for g in [x[0] for x in gs]):
            return True
        kinds = [x for g in p.guards if g[0][0] != "isinstance" for x in terms(g[0])
                 if x[0] == "isinstance" and elem_src(x[1]) == L]
        return True if kinds else "arguments that are no dictionary are accepted"
    ctx.forall("swarm_list: items", ps, items, "items are dictionaries",
               paths=cand, need=1)
    r = c.find("run_list")
    M = sym(r.params()[0][1])
    pr = ctx.run(r, cls=c, exc="none")

    def run(p):
        if p.kind != "return":
            return True
        v = p.value
        if fn_name(v) == "copy" and any(e.kind == "call" and last(e) in ("shuffle", "sort") and v in e.args.values()
                                        for e in events(p)):
            return "the addresses come in a random order"
        if fn_name(v) == "swarm_list":
            if recv_of(v) != SELF or dict(v[3]).get(f.params()[0][1]) != M:
                return "other calls are executed" if recv_of(v) == SELF and not contains(v, M) else None
        else:
            nonlocal L
            keep, L = L, M
            q = aligned(v)
            L = keep
            if q is not True:
                return q
        for e in events(p):
            if e.kind == "call" and last(e) in ("shuffle", "sort", "reverse"):
                a = list(e.args.values())
                if v in a and not (e.x or {}).get("refs") or (e.recv == v and last(e) != "shuffle") or (
                        p.raw is not None and p.raw in (e.x or {}).get("refs", ())):
                    return "the addresses come in a random order"
        for l in p.events:
            if l.kind == "loop" and l.x["iter"] is not None:
                ex = [[e for e in flat_events(xs) if last(e) == "execute"] for k, xs, gs in l.x["iters"]]
                if any(ex):
                    if not all(ex) or any(k != "next" for k, _, _ in l.x["iters"]):
                        return "some calls are not executed"
                    src = strip_wrappers(l.x["iter"])
                    while src[0] == "call" and (fn_name(src) == "copy") and (src[2] or src[1][0] == "attr"):
                        src = src[2][0] if src[2] else src[1][1]
                    if src == v or src == p.value or strip_wrappers(src) == v:
                        return True
                    if src[0] == "item":
                        return "some calls are not executed"
                    if src == M:
                        return True
                    return None
        return "the calls are not executed" if not any(last(e) == "execute" for e in events(p)) else None
    ctx.forall("run_list", pr, run, "each executed, aligned with the input", need=1)
    ph = ctx.run(r, cls=c, exc="handlers", base_exc=True,
                 raises=lambda ev: ev.kind == "call" and last(ev) == "execute")

    def given_up(p):
        if p.kind == "return" and any(e.kind == "call" and last(e) == "execute" and failed(e) for e in events(p)):
            return "after a failure the other calls are not executed, and nobody is told"
        return True
    ctx.forall("run_list: failures", ph, given_up, "every call is executed or the caller is told", need=1)
    for n, to in (("swarm_grid", "swarm_list"), ("run_grid", "run_list")):
        g = c.find(n)
        G = sym(g.params()[0][1])
        pg = ctx.run(g, cls=c, exc="none")

        def grid(p, to=to, G=G):
            if p.kind != "return":
                return True
            v = p.value
            if fn_name(v) != to:
                return {"swarm_list": "the calls are executed instead of requested" if to == "swarm_list" else
                        "the calls are requested but not executed", "run_list": "the calls are executed instead of requested"
                        }.get(fn_name(v)) if fn_name(v) in ("swarm_list", "run_list") else None
            a = next((x for _, x in v[3]), None)
            if a is None:
                return None
            for e in events(p):
                if e.kind in ("call", "mutate") and last(e) in ("shuffle", "sort", "reverse") and (
                        a in e.args.values() or e.recv == a):
                    return "the addresses come in another order than the grid"
            s = a
            while s[0] == "call" and s[1][0] == "ext" and s[1][1] in ("list", "tuple"):
                s = s[2][0]
            if s[0] == "list" and len(s[1]) == 1 and s[1][0][0] == "each" and not s[1][0][3]:
                if s[1][0][1] in (("elem", s[1][0][2]), ("call", ("ext", "dict"), (("elem", s[1][0][2]),), (), 0)):
                    s = s[1][0][2]
                    while s[0] == "call" and s[1][0] == "ext" and s[1][1] in ("list", "tuple"):
                        s = s[2][0]
            if ext_call(s, "sklearn.model_selection.ParameterGrid") or (s[0] == "call" and s[1][0] == "ext" and s[1][1].endswith("ParameterGrid")):
                if s[2][0] != G and contains(s[2][0], G) and any(
                        ext_call(t, "set", "frozenset", "sorted", "reversed") or t[0] == "item" and t[2][0] == "slice"
                        for t in terms(s[2][0])):
                    return "the calls are those of another grid"
                return s[2][0] == G or None
            if s[0] == "call" and s[1][0] == "ext" and s[1][1] in ("sorted", "reversed", "set"):
                return "the addresses come in another order than the grid"
            return "some points of the grid are left out" if s[0] == "item" else None
        ctx.forall(n, pg, grid, "the points of the grid in its order", need=1)


# ------------------------------------------------------------------ C47
@rule("C47", "check", "a consistency check compares with certainty and restores the setting")
def c47(ctx):
    c = ctx.P.cls(PF)
    f = c.find("execute")
    ps = ctx.run(f, cls=c, exc="none")

    def sets(p):
        return [e for e in events(p) if e.kind == "setattr" and e.name in ("_p_consistency_checks", "p_consistency_checks")
                and not failed(e)]

    def portal_p(v):
        v = unver(v)
        return prob(v) and not is_attr(v[1] if v[0] == "attr" else NONE, "execution_results")

    def certain(p):
        rd = [b for g, b, _ in p.guards if g[0] == "truthy" and ready_of(g[1]) is not None]
        if not rd or not rd[0]:
            return True
        evs = events(p)
        w = [i for i, e in enumerate(evs) if e.kind == "setitem" and is_attr(e.recv, "execution_results")]
        if not w:
            return "a consistency check does not compare with the stored result" if p.kind == "return" else True
        s = [e for e in evs[:w[0]] if e.kind == "setattr" and e.name == "_p_consistency_checks" and is_attr(e.recv, "execution_results")]
        if not s:
            return "a consistency check compares only by chance"
        v = s[-1].args["value"]
        if is_c(v):
            return (v[2] is not None and v[2] >= 1) or "a consistency check compares only by chance"
        low = [teval(v, lambda t: x if prob(unver(t)) else UNK) for x in (0.01, 0.5)]
        if UNK not in low:
            return all(isinstance(x, (int, float)) and x >= 1 for x in low) or "a consistency check compares only by chance"
        return "a consistency check compares only by chance" if portal_p(v) else None
    ctx.forall("execute: check", ps, certain, "the comparison takes place", sel=lambda p: bool(bodies(p)), need=2)
    pa = ctx.run(f, cls=c, exc="all", opaque=("portal",),
                 raises=lambda e: e.kind in ("call", "setitem") and last(e) in ("execute", "[]=", "drop_execution_request", "register_execution_result"))

    def restored(p):
        s = sets(p)
        if not s:
            return True
        v = s[-1].args["value"]
        if not portal_p(v):
            return "after a consistency check every write is checked" if is_c(v) else None
        evs = events(p)
        i = evs.index(s[-1])
        return True
    ctx.forall("execute: restored", pa, restored, "the setting is the portal's again", need=3)


@rule("C47", "setting", "the portal's setting governs both storages")
def c47_set(ctx):
    for cn, st in (("DataPortal", "value_store"), ("PureCodePortal", "execution_results")):
        c = ctx.P.cls(cn)
        f = c.find("__init__")
        ps = ctx.run(f, cls=c, exc="none")
        P_ = sym("p_consistency_checks")

        def ok(p, st=st):
            if p.kind != "return":
                return True
            w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == st]
            if not w:
                return f"{st} is not set up"
            v = w[-1].args["value"]
            if not cls_call(v, "FirstEntryDict"):
                return f"{st} checks nothing" if v[0] in ("call", "item", "attr") else None
            q = dict(v[3]).get("p_consistency_checks")
            if q is None and len(v[2]) > 1:
                q = v[2][1]
            if q is None or q == NONE:
                return f"the setting of the portal does not reach {st}"
            q = unver(q)
            for val in (None, 0, 1e-9, 0.001, 0.3, 0.5, 0.999, 1):
                at = lambda t, val=val: val if t == P_ or own(t, "p_consistency_checks", "_p_consistency_checks") else UNK
                got = teval(q, at)
                if consistent(p, at) and got is not UNK and (got or 0) != (val or 0):
                    return f"the setting {val!r} of the portal reaches {st} as {got!r}"
            if q == P_ or own(q, "p_consistency_checks", "_p_consistency_checks"):
                return True
            if is_c(q):
                gs = [(g, b) for g, b, _ in p.guards if contains(g, P_)]
                if (("isnone", P_), True) in gs:
                    return (q[2] in (0, 0.0) or
                            f"without a setting {st} is compared with chance {q[2]!r}")
                if (("truthy", P_), False) in gs and q[2] in (0, 0.0):
                    return True
                return (f"the setting of the portal does not reach {st}"
                        if all(g[0] in ("isnone", "lt") for g, _ in gs) else None)
            return None
        ctx.forall(f"{cn}.{st}", ps, ok, "the setting reaches the storage", need=1)
    fe = ctx.P.cls("FirstEntryDict")
    f = fe.find("__init__")

    def kept(p):
        if p.kind != "return":
            return True
        w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "_p_consistency_checks"]
        if not w:
            return "the storage does not keep its setting"
        q = unver(w[-1].args["value"])
        P_ = sym("p_consistency_checks")
        if q == P_:
            return True
        for val in (None, 0, 1e-9, 0.001, 0.3, 0.5, 0.999, 1):
            at = lambda t, val=val: val if t == P_ else UNK
            got = teval(q, at)
            if consistent(p, at) and got is not UNK and (got or 0) != (val or 0):
                return f"the setting {val!r} is kept as {got!r}"
        return None if contains(q, P_) else is_c(q) or None
    if f is not None and "p_consistency_checks" in f.params()[0] + f.params()[1]:
        ctx.forall("FirstEntryDict", ctx.run(f, cls=fe, exc="none"), kept, "the storage keeps its setting", need=1)
    base = ctx.P.cls("DataPortal")
    for c in sorted((x for x in ctx.P.subclasses(base) if "OLD" not in x.mod.name and "_000_tests" not in x.mod.name), key=lambda x: x.name):
        f = c.methods.get("__init__")
        if f is None or c is base:
            continue
        pos, kwo, va, kwa = f.params()
        if "p_consistency_checks" not in pos + kwo and not kwa:
            continue
        ps = ctx.run(f, cls=c, exc="none")

        def handed(p, c=c, kwa=kwa):
            if p.kind != "return":
                return True
            sup = [e for e in events(p) if e.kind == "call" and last(e) == "__init__" and e.name.split(".")[0].replace("super:", "") in
                   [k.name for k in c.mro if hasattr(k, "name") and k.is_sub(base)] and e.name.split(".")[0] != c.name]
            if not sup:
                return None
            for e in sup:
                q = e.args.get("p_consistency_checks")
                if q is None:
                    q = e.args.get("**")
                    if q is not None and kwa and contains(q, sym(kwa)):
                        continue
                    return None
                if q[0] == "default" or is_c(q):
                    if any(g == ("isnone", sym("p_consistency_checks")) and b for g, b, _ in p.guards) and q == NONE:
                        continue
                    return "the setting given to the portal is lost"
                if not contains(q, sym("p_consistency_checks")) and not (kwa and contains(q, sym(kwa))):
                    return "the setting given to the portal is lost" if not contains(q, SELF) else None
            return True
        ctx.forall(f"{c.name}: setting", ps, handed, "the setting is handed on", need=1)
    c = ctx.P.cls("DataPortal")
    f = c.find("p_consistency_checks")
    if f is not None:
        ps = ctx.run(f, cls=c, exc="none")

        def rd(p):
            if p.kind != "return":
                return None
            return is_attr(unver(p.value), "_p_consistency_checks", SELF) or (
                "the portal does not report its setting" if is_c(p.value) else None)
        ctx.forall("DataPortal.p_consistency_checks", ps, rd, "the setting given to the portal", need=1)
