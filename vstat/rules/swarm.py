"""Swarming: workers and the life of the runtime that started them (C36, C37)."""
import ast
from .base import *
from .data import normal_dict
from .pure import recv_of, cls_call, arg
from .portals import portal_classes, STACK, ALL

NBW = "n_background_workers"


def params_sym(f):
    a = f.node.args
    return sym(a.kwarg.arg) if a.kwarg else (sym(f.params()[0][0]) if f.params()[0] else None)


def built(t):
    """t is a portal made from parameters -> the parameters"""
    u = unver(t)
    if u[0] == "call" and u[1][0] == "attr" and u[1][2] == "__enter__":
        u = u[1][1]
    if u[0] == "entered":            # what a with statement over the portal gives
        u = unver(u[1])
    if fn_name(u) == "get_object_from_portable_params":
        return u[2][0] if u[2] else u[3][0][1]
    return None


def zero(t, before):
    """The parameters t ask for no workers: True / False (not set) / None; t's base."""
    d = normal_dict(t) if t[0] in ("dict", "call", "op") else None
    if d and NBW in d[0]:
        v = d[0][NBW]
        return v == C(0) if is_c(v) else None
    u = unver(t)
    res = False
    for e in before:
        if e.kind == "setitem" and unver(e.recv) == u and e.args.get("key") == C(NBW):
            res = True if e.args["value"] == C(0) else "no"
        if e.kind == "call" and last(e) == "update" and e.recv is not None and unver(e.recv) == u:
            x = dict(e.args).get(NBW)
            res = (x == C(0)) if x is not None else (None if res is False else res)
    if res is False and d is None and t[0] not in ("sym", "call", "attr"):
        return None
    return res


def constructions(p):
    """(event index, parameters) of every portal built from parameters on a path"""
    out = []
    evs = list(flat_events(p.events))
    for i, e in enumerate(evs):
        if e.kind == "call" and last(e) == "get_object_from_portable_params":
            out.append((evs[:i], list(e.args.values())[0]))
    return out


def processes(evs):
    return [e for e in evs if e.kind == "call" and last(e) == "Process"]


def target_of(e):
    t = e.args.get("target")
    return t[1].split(":")[-1] if t is not None and t[0] == "fn" else None


def live_check(e):
    return e.kind == "call" and last(e) == "parent_runtime_is_live"


def is_live(g):
    u = unver(g)
    if u[0] == "truthy":
        u = u[1]
    return u[0] == "call" and fn_name(u) == "parent_runtime_is_live"


def names(f):
    return f.mod.name


@rule("C36", "no workers of their own", "the portals of workers start no workers")
def c36_zero(ctx):
    L = ctx.P.func("SwarmingPortal._launch_background_worker")
    Wk = ctx.P.func("_background_worker")
    Pr = ctx.P.func("_process_random_execution_request")
    pl = ctx.run(L, cls=ctx.P.cls("SwarmingPortal"), exc="none")
    pw = ctx.run(Wk, exc="none")
    pp = ctx.run(Pr, exc="none")

    def passed(ps):
        """every process is started with parameters that ask for no workers"""
        r = True
        if ps.paths is None:
            return None
        for p in ps:
            evs = list(flat_events(p.events))
            for i, e in enumerate(evs):
                if e in processes([e]):
                    k = e.args.get("kwargs")
                    z = zero(k, evs[:i]) if k is not None else False
                    if z is not True:
                        r = z if r is True else r
        return r

    def builds(ps):
        r = True
        if ps.paths is None:
            return None
        n = 0
        for p in ps:
            for before, k in constructions(p):
                n += 1
                z = zero(k, before)
                if z is not True:
                    r = z if r is True else r
        return r if n else None
    l, w, w2, pr = passed(pl), builds(pw), passed(pw), builds(pp)

    def any_(*xs):
        """the last assignment decides; xs from the last one to the first"""
        for x in xs:
            if x is not False:
                return False if x == "no" else x
        return False
    ctx.check("_background_worker", any_(w, l), Wk.loc(), "the portal of a worker starts no workers of its own")
    # parameters passed on are the worker's own ones
    same = True
    if pw.paths is not None:
        for p in pw:
            for e in processes(flat_events(p.events)):
                k = e.args.get("kwargs")
                if k is None or unver(k) != params_sym(Wk):
                    same = None
    ctx.check("_process_random_execution_request", any_(pr, w2, l if same else None if same is None else False), Pr.loc(),
              "the portal that executes a request starts no workers")


@rule("C36", "worker", "a worker processes one request after the other as long as its parent lives")
def c36_worker(ctx):
    f = ctx.P.func("_background_worker")
    ps = ctx.run(f, exc="none")
    PS = params_sym(f)
    if ps.paths is not None and not any(p.kind == "return" for p in ps):
        ctx.check("_background_worker", False if not any(p.imprecise for p in ps) else None, f.loc(), "a worker goes on after its parent has ended")
        return

    def ok(p):
        if p.kind == "raise":
            return True
        evs = events(p)
        ent = [e for e in evs if e.kind == "with_enter" and built(e.recv) is not None]
        if not ent:
            return "the worker does not use its portal"
        if unver(built(ent[0].recv)) != PS:
            d = normal_dict(built(ent[0].recv))
            if not d or not contains(built(ent[0].recv), PS):
                return None
        ls = [l for l in loops(p.events) if processes(flat_events([x for _, xs, _ in l.x["iters"] for x in xs]))]
        if not ls:
            return "the worker stops after one request" if processes(flat_events(p.events)) else "the worker processes no requests"
        for l in ls:
            if l.x["iter"] is not None:
                return "the worker stops after a number of requests" if fn_name(strip_wrappers(l.x["iter"])) == "range" else None
            for k, xs, gs in l.x["iters"]:
                xs = list(flat_events(xs))
                pr = processes(xs)
                alive = [b for g, b in gs if is_live(g)]
                dead = False in alive
                if pr:
                    if dead or not alive:
                        return "a worker goes on after its parent has ended"
                    i = xs.index(pr[0])
                    if not any(live_check(x) for x in xs[:i]):
                        return "the parent is not looked at before each request"
                    if len(pr) > 1:
                        return "several requests are processed at once"
                    if target_of(pr[0]) != "_process_random_execution_request":
                        return "something else than a request is processed" if target_of(pr[0]) else None
                    kw_ = pr[0].args.get("kwargs")
                    if kw_ is None:
                        return "requests of another portal are processed"
                    if not contains(unver(kw_), PS):
                        return None
                    started = [j for j, x in enumerate(xs) if x.kind == "call" and x.name == ".start" and fn_name(unver(x.recv)) == "Process"]
                    joined = [j for j, x in enumerate(xs) if x.kind == "call" and x.name in (".join", ".run", ".wait") and fn_name(unver(x.recv)) == "Process"]
                    if not started:
                        return "the process of a request is not started"
                    if not joined or joined[-1] < started[0]:
                        return "a worker does not wait for the request it processes"
                    for j in joined:
                        a = list(xs[j].args.values())
                        if a and a[0] != NONE:
                            return "a worker does not wait for the request it processes"
                elif k == "next" and not dead and alive:
                    if not any(x.kind == "call" for x in xs if not live_check(x)):
                        return None
                elif k == "next" and dead:
                    return "a worker goes on after its parent has ended"
        quiet = False
        for e in p.events:
            if e.kind in ("with_enter", "with_exit") and fn_name(e.recv) == "OutputSuppressor":
                quiet = e.kind == "with_enter"
            if e.kind == "loop" and any(e is l for l in ls) and not quiet:
                return "workers print"
        # it ended because the parent did
        if not any(is_live(g) and not b for g, b, _ in p.guards):
            if any(k == "return" and any(is_live(g) and not b for g, b in gs) for l in ls for k, xs, gs in l.x["iters"]):
                return True
            return "a worker stops while its parent lives"
        return True
    ctx.forall("_background_worker", ps, ok, "checks its parent, then processes exactly one request and waits for it, over and over", need=1)


@rule("C36", "request", "a worker executes one request that needs to be and can be executed")
def c36_request(ctx):
    RANDOM = ("choice", "choices", "sample", "shuffle", "random", "randint", "randrange", "uniform", "uuid4", "uuid1", "urandom",
              "get_random_signature", "getrandbits", "permutation", "token_hex", "choice_rand")
    f = ctx.P.func("_process_random_execution_request")
    ps = ctx.run(f, exc="none")
    PS = params_sym(f)

    def requests(t):
        t = unver(strip_wrappers(t))
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys",):
            t = t[1][1]
        return is_attr(t, "execution_requests") and built(t[1]) is not None

    fs = ctx.P.func("HashAddr.from_strings")
    readiness = None
    for x, dflt in zip(reversed(fs.node.args.args), reversed(fs.node.args.defaults)):
        if x.arg == "assert_readiness" and isinstance(dflt, ast.Constant):
            readiness = C(dflt.value)

    def candidate(x):
        """One element of a list of candidates: True or what is wrong."""
        if x[0] != "each":
            return None
        a, conds = x[1], x[3]
        if not cls_call(a, "PureFnExecutionResultAddr") and not (fn_name(a) == "from_strings"):
            return None
        ks = dict(a[3])
        el = None
        if fn_name(a) == "from_strings":
            rd = dict(a[3]).get("assert_readiness", a[2][2] if len(a[2]) > 2 else readiness)
            if rd == TRUE:
                return "requests whose result is missing cannot be looked at"
        for n, i in (("prefix", 0), ("hash_signature", 1)):
            v = ks.get(n)
            if v is None:
                return None
            v = unver(v)
            if not (v[0] == "item" and v[1][0] == "elem" and is_c(v[2])):
                return None
            if v[2][2] != i:
                return "the address is put together wrongly"
            el = v[1]
            if not requests(el[1]):
                part = unver(strip_wrappers(el[1]))
                if part[0] == "item" and part[2][0] == "slice" and any(is_attr(t, "execution_requests") for t in terms(part)):
                    lo, hi, st = part[2][1:4]
                    if is_c(hi) and hi[2] is not None and abs(hi[2]) < 100 or is_c(lo) and lo[2]:
                        return "some requests are never considered"
                return "something else than the requests is considered" if el[1][0] == "attr" else None
        need = can = None
        for g, b in conds:
            u = unver(g)
            if u[0] == "truthy" and contains(u, unver(a)):
                n = u[1][2] if u[1][0] == "attr" else fn_name(u[1])
                if n == "needs_execution" and u[1][1] == unver(a) or (n == "needs_execution" and u[1][0] == "call"):
                    need = b
                elif n == "can_be_executed":
                    can = b
                elif n == "ready" or n == "execution_requested":
                    continue
                elif u[1][0] == "list":
                    continue
                else:
                    return None
            elif is_live(u):
                continue
            elif u[0] in ("lt", "eq") and any(x == ("idx", t) for x in u[1:] for t in (el[1], strip_wrappers(el[1]))):
                return "some requests are never considered"
            elif has_call(u, "len") or u[0] in ("truthy", "lt", "eq") and any(t[0] == "list" for t in terms(u)):
                continue
            elif u[0] == "in":
                return None
            else:
                return "some requests are never considered" if contains(u, el) else None
        if need is None or can is None:
            return "a call that does not need to be executed is executed" if need is None else "a call that cannot be executed is executed"
        if not need:
            return "calls that need no execution are executed"
        if not can:
            return "calls that cannot be executed are executed"
        return True

    def chosen(t):
        """what is executed -> the list it is chosen from"""
        t = unver(t)
        gen = [x for x in terms(t) if x[0] == "call" and x[1][0] == "ext" and x[1][1].split(".")[-1] in ("Random", "default_rng") and (x[2] or x[3])
               and not all(a == NONE or has_call(a, "urandom", "uuid4", "time_ns", "getpid", "get_random_signature") for a in list(x[2]) + [v for _, v in x[3]])]
        if gen:
            return "seeded"
        if t[0] == "call" and t[1][0] in ("attr", "ext") and fn_name(t) == "choice":
            return t[2][0] if t[2] else t[3][0][1]
        if t[0] == "item" and t[1][0] == "call" and fn_name(t[1]) in ("sample", "choices"):
            return t[1][2][0]
        if t[0] == "item" and has_call(t[2], "randrange", "randint"):
            return t[1]
        return None

    def first(t):
        t = unver(t)
        if t[0] == "item" and is_c(t[2]):
            t = t[1]
            if t[0] == "list":
                return True
            names = ("sorted", "reversed", "list", "tuple")
        else:
            names = ("min", "max")
        return (t[0] == "call" and t[1][0] == "ext" and t[1][1] in names and len(t[2]) == 1 and unver(t[2][0])[0] == "list"
                and not any(has_call(v, *RANDOM) or v[0] == "sym" for _, v in t[3]))

    def ok(p):
        if p.kind != "return":
            return True
        evs = events(p, into_loops=False)
        allv = list(flat_events(p.events))
        ex = [e for e in evs if e.kind == "call" and last(e) == "execute"]
        inner = [e for e in allv if e.kind == "call" and last(e) == "execute" and e not in ex]
        if inner:
            return None if len(inner) == 1 and not ex else "several requests are executed at once"
        if len(ex) > 1:
            return "several requests are executed at once"
        dead = any(is_live(g) and not b for g, b, _ in p.guards)
        if not ex:
            return dead or "a request is left unexecuted"
        if dead:
            return "a request is executed although the parent has ended"
        l = chosen(ex[0].recv)
        if l == "seeded":
            return "the same request is chosen by every worker"
        u = unver(ex[0].recv)
        if l is not None and u[0] == "item" and u[2][0] == "call" and fn_name(u[2]) in ("randrange", "randint"):
            for n in (1, 2, 3, 10):
                a = [teval(x, lambda t: n if t[0] == "call" and t[1] == ("ext", "len") and unver(t[2][0]) == unver(l) else UNK) for x in u[2][2]]
                if UNK in a:
                    return None
                got = list(range(*a)) if fn_name(u[2]) == "randrange" else list(range(a[0], a[1] + 1))
                if got != list(range(n)):
                    return "some candidates are never chosen" if got and set(got) <= set(range(n)) else "the chosen request may not exist"
        if l is None:
            return "always the same request is chosen" if first(ex[0].recv) else None
        if l[0] != "list":
            return "some candidates are never chosen" if l[0] == "item" else None
        for x in l[1]:
            r = candidate(x)
            if r is not True:
                return r
        # the list is not empty
        i = evs.index(ex[0])
        w = [e for e in evs[:i] if e.kind == "with_enter"]
        x = [e for e in evs[:i] if e.kind == "with_exit"]
        if not any(built(e.recv) is not None for e in w):
            return "the request is executed outside the portal"
        if not any(fn_name(e.recv) == "OutputSuppressor" for e in w):
            return "workers print"
        if x:
            return "the request is executed outside the portal" if any(built(e.recv) is not None for e in x) else "workers print"
        return True
    ctx.forall("_process_random_execution_request", ps, ok,
               "one request that needs and allows execution, chosen at random, executed quietly in the portal", need=1)

    def enough(p):
        for l in nested(p.events):
            for k, xs, gs in l.x["iters"]:
                if k not in ("break", "return"):
                    continue
                some = False
                for g, b in gs:
                    u = unver(g)
                    if not has_call(u, "len") and not any(x[0] == "mu" for x in terms(u)):
                        continue

                    def at(t):
                        if t[0] == "call" and t[1] == ("ext", "len"):
                            return 100
                        if t[0] == "call" and fn_name(t) in ("randint", "randrange") and len(t[2]) == 2 and is_c(t[2][0]):
                            return t[2][0][2]
                        return UNK
                    r = teval(u, at)
                    if r is UNK or bool(r) != b:
                        some = False
                        break
                    some = True
                if some and any(has_call(unver(g), "len") for g, b in gs):
                    return "only a few requests are considered"
        return True

    def nested(evs):
        for l in loops(evs):
            yield l
            for _, xs, _ in l.x["iters"]:
                yield from nested(xs)
    ctx.forall("_process_random_execution_request: breadth", ps, enough, "hundreds of candidates are considered", need=1)

    def all_seen(p):
        for l in nested(p.events):
            if l.x["iter"] is None or not requests(l.x["iter"]):
                continue
            for k, xs, gs in l.x["iters"]:
                if k == "break" and not any(has_call(g, "len") or any(t[0] in ("list", "mu") for t in terms(g)) or g[0] == "lt" for g, b in gs):
                    return "not all requests are considered"
        return True
    ctx.forall("_process_random_execution_request: failing requests", ctx.run(f, exc="handlers"), all_seen,
               "a request that cannot be looked at does not hide the others", need=1)

    def once(p):
        n = [e for e in events(p, into_loops=False) if e.kind == "call" and last(e) == "execute"]
        return len(n) <= 1 or "a request that failed is executed again at once"
    ctx.forall("_process_random_execution_request: once", ctx.run(f, exc="handlers"), once, "executed once, whether it fails or not", need=1)

    ctx.exists("_process_random_execution_request: progress", ps,
               lambda p: p.kind == "return" and any(e.kind == "call" and last(e) == "execute" for e in flat_events(p.events)),
               "a request that can be executed is executed at some time")

    def watch(p):
        if p.kind != "return":
            return True
        ls = [l for l in loops(p.events) if any(x.kind == "loop" and x.x["iter"] is not None and requests(x.x["iter"])
                                                for _, xs, _ in l.x["iters"] for x in xs)]
        if not ls:
            return None if any(requests(l.x["iter"]) for l in loops(p.events) if l.x["iter"] is not None) else None
        for l in ls:
            for k, xs, gs in l.x["iters"]:
                look = [i for i, x in enumerate(xs) if x.kind == "loop" and x.x["iter"] is not None and requests(x.x["iter"])]
                alive = [b for g, b in gs if is_live(g)]
                if look:
                    if not alive or not any(live_check(x) for x in xs[:look[0]]):
                        return "a worker keeps looking for requests after its parent has ended"
                    if False in alive:
                        return "a worker keeps looking for requests after its parent has ended"
                    if True in alive and k in ("return", "break") and not any(x.kind == "call" and last(x) == "execute" for x in xs):
                        # leaves although the parent lives: only with candidates
                        if not any(unver(g)[0] == "truthy" and b for g, b in gs if not is_live(g)):
                            return None
                    for x in xs:
                        if x.kind == "loop" and x.x["iter"] is not None and requests(x.x["iter"]):
                            for kk, ys, hs in x.x["iters"]:
                                if kk == "return":
                                    return None
                                if kk == "break" and not any(any(t[0] == "list" for t in terms(g)) or has_call(g, "len") or g[0] == "lt" for g, b in hs):
                                    return "not all requests are considered"
                    # nothing found: pause
                    at = max(i for i, (g, b) in enumerate(gs) if is_live(g))
                    none = [b for g, b in gs[at:] if not is_live(g) and unver(g)[0] == "truthy" and any(t[0] == "list" for t in terms(g))]
                    found = any(has_attr(unver(g), "needs_execution") for g, b in gs[at:] if not (unver(g)[0] == "truthy" and unver(g)[1][0] == "list"))
                    if k == "next" and (none[-1] is False if none else not found):
                        pause = [x for x in xs[look[-1]:] if x.kind == "call" and last(x) in ("_randomly_delay_execution", "sleep")]
                        if not pause:
                            return "a worker with nothing to do looks again without a pause"
                        for x in pause:
                            if last(x) == "_randomly_delay_execution":
                                q = x.args.get("p", x.args.get("0"))
                                if q is None or (is_c(q) and q[2] < 1):
                                    return "a worker with nothing to do looks again without a pause"
                elif k == "next" and False in alive:
                    return "a worker keeps looking for requests after its parent has ended"
        return True
    # a copy of the requests is made anew in every round
    for w in (n for n in ast.walk(f.node) if isinstance(n, ast.While)):
        for l in (n for n in ast.walk(w) if isinstance(n, ast.For) and isinstance(n.iter, ast.Name)):
            sets = [(n, n.value) for n in ast.walk(f.node) if isinstance(n, ast.Assign)
                    and any(isinstance(t, ast.Name) and t.id == l.iter.id for t in n.targets)]
            inside = set(map(id, ast.walk(w)))
            if sets and all(id(n) not in inside and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("list", "tuple", "set", "sorted")
                            and any(isinstance(x, ast.Attribute) and x.attr == "execution_requests" for x in ast.walk(v)) for n, v in sets):
                ctx.check("_process_random_execution_request: looking again", False, f"{f.loc().split(':')[0]}:{l.lineno}",
                          "a worker that waits looks again at the requests there were before")
    ctx.forall("_process_random_execution_request: waiting", ps, watch, "every round looks at the parent first, then at all requests, then pauses", need=1)


@rule("C36", "pause", "a certain pause is certain, and a pause pauses")
def c36_pause(ctx):
    c = ctx.P.cls("SwarmingPortal")
    f = c.find("_randomly_delay_execution")
    if f is None:
        return
    ps = ctx.run(f, cls=c, exc="none")

    def ok(p):
        if p.kind != "return":
            return "pausing fails"
        sl = [e for e in events(p) if e.kind == "call" and last(e) == "sleep"]
        certain = True
        for g, b, _ in p.guards:
            def at(t, v):
                u = unver(t)
                if u[0] == "call" and fn_name(u) in ("uniform", "random"):
                    return v
                if u == sym("p"):
                    return 1
                return UNK
            for v in (0.0, 0.4, 0.999999):
                r = teval(g, lambda t: at(t, v))
                if r is UNK:
                    return None
                if bool(r) != b:
                    certain = False
        if certain and not sl:
            return "a pause with probability 1 is left out"
        for e in sl:
            a = list(e.args.values())[0]
            if not (contains(a, sym("min_delay")) and contains(a, sym("max_delay"))):
                return None if not is_c(a) else True
        return True
    ctx.forall("_randomly_delay_execution", ps, ok, "with probability 1 it sleeps", need=2)


# ------------------------------------------------------------------ C37
def rec_key(t):
    """t is the key of the runtime id of this node"""
    xs = seq_items(t)
    if xs is None or len(xs) != 2:
        return None
    a, b = unver(xs[0]), xs[1]
    node = fn_name(a) == "get_node_signature" or is_attr(a, "node_id")
    if not is_c(b):
        return None
    return bool(node) and b[2] == "runtime_id"


def rec_store(t):
    t = unver(t)
    return is_attr(t, "pkl") and (is_attr(t[1], "compute_nodes") or fn_name(t[1]) == "OverlappingMultiDict")


@rule("C37", "start", "a runtime that starts workers leaves its own fresh id, before it starts them")
def c37_start(ctx):
    c = ctx.P.cls("SwarmingPortal")
    f = c.find("__init__")
    ps = ctx.run(f, cls=c, exc="none", opaque=("PureCodePortal.__init__", "_launch_background_worker"))
    RID = sym("runtime_id")
    N = sym(NBW)

    def given(p):
        for g, b, _ in p.guards:
            if unver(g) == ("isnone", RID):
                return not b
            if unver(g) == ("truthy", RID):
                return b
        return None

    def ok(p):
        if p.kind != "return":
            return True
        g = given(p)
        evs = list(events(p))
        w = [(i, e) for i, e in enumerate(evs) if e.kind == "setitem" and rec_store(e.recv) and rec_key(e.args["key"])]
        s = [e for e in evs if e.kind == "setattr" and e.recv == SELF and e.name == "runtime_id"]
        if not s:
            return "the runtime id is forgotten"
        if g is None:
            return "a worker's portal replaces the id of its parent" if w else None
        if g:
            if w:
                return "a worker's portal replaces the id of its parent"
            if any(e.kind == "call" and last(e) == "register" and "atexit" in e.name for e in evs):
                return "a worker that ends removes the id of its parent"
            return s[-1].args["value"] == RID or "the given runtime id is not kept"
        if not w:
            other = [e for e in evs if e.kind == "setitem" and rec_store(e.recv)]
            return "the runtime id is not recorded" if not any(rec_key(e.args["key"]) is None for e in other) else None
        v = w[-1][1].args["value"]
        if unver(v) != unver(s[-1].args["value"]):
            return "another id is recorded than the portal's"
        if fn_name(v) != "get_random_signature":
            if fn_name(v) in ("get_node_signature", "setdefault", "get") or is_c(v):
                return "the runtime id is not unique"
            return None if has_call(v, "get_random_signature", "uuid4", "uuid1", "token_hex", "token_urlsafe", "urandom", "getrandbits", "randbits") or any(
                x[0] in ("mu", "sym", "elem", "any") for x in terms(v)) else "the runtime id is not a fresh random one"
        reg = [e for e in evs if e.kind == "call" and e.name == "atexit.register"]
        if not reg:
            return "the id stays when the runtime ends"
        if not any(a[0] == "fn" and a[1].endswith(":_clean_runtime_id") for e in reg for a in e.args.values()):
            return None
        un = [i for i, e in enumerate(evs) if e.kind == "call" and e.name == "atexit.unregister"]
        if un and un[-1] > [i for i, e in enumerate(evs) if e in reg][-1]:
            return "the id stays when the runtime ends"
        # workers are started afterwards
        for i, e in enumerate(evs):
            if e.kind == "call" and last(e) == "_launch_background_worker" and i < w[-1][0]:
                return "workers are started before the id is there, and stop"
        return True
    ctx.forall("SwarmingPortal.__init__", ps, ok, "a fresh id is recorded for this node unless one is given", need=2)

    def count(p):
        if p.kind != "return":
            return True
        ls = [l for l in loops(p.events) if any(x.kind == "call" and last(x) == "_launch_background_worker" for _, xs, _ in l.x["iters"] for x in xs)]
        single = [e for e in events(p, into_loops=False) if e.kind == "call" and last(e) == "_launch_background_worker"]
        if single:
            return "the number of workers differs" if ls else None
        if not ls:
            zero_ = [b for g, b, _ in p.guards if teval(unver(g), lambda t: 2 if t == N or (fn_name(t) == "int" and contains(t, N)) or is_attr(t, NBW, SELF) else UNK)
                     not in (UNK, b)]
            return True if zero_ else ("no workers are started" if not any(True for l in loops(p.events)) else None)
        if len(ls) > 1:
            return "the number of workers differs"
        l = ls[0]
        src = l.x["iter"]
        if src is None:
            return None
        s = strip_wrappers(src)
        if fn_name(s) != "range":
            return None
        for n in (0, 1, 2, 7):
            def at(t):
                u = unver(t)
                if u == N or is_attr(u, NBW, SELF) or (u[0] == "call" and u[1] == ("ext", "int") and contains(u, N)):
                    return n
                return UNK
            a = [teval(x, at) for x in s[2]]
            if UNK in a:
                return None
            if len(range(*a)) != n:
                return "the number of workers differs from the one asked for"
        for k, xs, gs in l.x["iters"]:
            m = [x for x in xs if x.kind == "call" and last(x) == "_launch_background_worker"]
            if k != "next" or gs or len(m) != 1:
                return "the number of workers differs from the one asked for"
        return True
    ctx.forall("SwarmingPortal.__init__: workers", ps, count, "as many workers as asked for", need=1)

    def negative(p):
        def at(t):
            u = unver(t)
            if u == N or (u[0] == "call" and u[1] == ("ext", "int") and contains(u, N)) or is_attr(u, NBW, SELF):
                return -1
            return UNK
        if not consistent(p, at):
            return True
        return p.kind == "raise" or "a negative number of workers is accepted"
    ctx.forall("SwarmingPortal.__init__: negative", ps, negative, "a negative number of workers is refused", need=1)


@rule("C37", "launch", "a worker is a fresh process with the portal's own parameters")
def c37_launch(ctx):
    c = ctx.P.cls("SwarmingPortal")
    f = c.find("_launch_background_worker")
    ps = ctx.run(f, cls=c, exc="none")

    def ok(p):
        if p.kind != "return":
            return "no worker is started"
        evs = events(p)
        pr = processes(evs)
        if len(pr) != 1:
            return "no worker is started" if not pr else "several workers are started"
        e = pr[0]
        t = e.args.get("target")
        if t is None or t[0] != "fn":
            return None
        if not t[1].endswith(":_background_worker"):
            return "the process is no worker"
        k = e.args.get("kwargs")
        if k is None:
            return "the worker gets no parameters"
        if not has_call(k, "__get_portable_params__"):
            return None
        ow = [x for x in terms(unver(k)) if x[0] == "call" and fn_name(x) == "__get_portable_params__"]
        if not any(x[1] == ("attr", SELF, "__get_portable_params__") for x in ow):
            return "the worker gets the parameters of another portal"
        # parameters that are changed on the way
        d = normal_dict(k)
        ch = {x for x in (d[0] if d else ()) if isinstance(x, str)} | {x.args["key"][2] for x in evs if x.kind == "setitem" and unver(x.recv) == unver(k) and is_c(x.args["key"])}
        if ch - {NBW}:
            return "the worker gets other parameters: " + ", ".join(sorted(map(str, ch - {NBW})))
        if any(x.kind in ("delitem",) or (x.kind == "call" and last(x) in ("pop", "clear") and x.recv is not None and unver(x.recv) == unver(k)) for x in evs):
            return "the worker lacks some of the parameters"
        cx = unver(e.recv) if e.recv is not None else None
        if cx is None or fn_name(cx) != "get_context":
            return "the worker is a copy of this process" if cx is None or tstr(cx).startswith("multiprocessing") else None
        m = (cx[2] or [v for _, v in cx[3]] or (NONE,))[0]
        if m != C("spawn"):
            return "the worker is a copy of this process" if is_c(m) else None
        if e.args.get("daemon", FALSE) == TRUE or any(x.kind == "setattr" and x.name.strip(".=") == "daemon" for x in evs):
            return "a daemonic worker cannot start the processes that execute requests"
        st = [x for x in evs if x.kind == "call" and x.name == ".start" and fn_name(unver(x.recv)) == "Process"]
        if not st:
            return "the worker is not started"
        if any(x.kind == "call" and x.name == ".join" for x in evs):
            return "creating a portal waits for its workers to end"
        return True
    ctx.forall("_launch_background_worker", ps, ok, "spawned, with the portable parameters of the portal", need=1)


@rule("C37", "identity", "the parameters a worker gets are those of its parent")
def c37_identity(ctx):
    c = ctx.P.cls("SwarmingPortal")
    g = c.find("get_params")
    if g is None:
        return
    ps = ctx.run(g, cls=c, exc="none", inline=("get_params",))

    def ok(p):
        if p.kind != "return":
            return "the parameters of a portal cannot be told"
        v = p.value
        d = normal_dict(v)
        got = None
        for e in events(p, into_loops=False):
            if e.kind == "setitem" and e.args.get("key") == C("runtime_id") and unver(e.recv) == unver(v):
                got = e.args.get("value")
        if got is None and d is not None:
            got = d[0].get("runtime_id")
        if got is None:
            return None
        return is_attr(unver(got), "runtime_id", SELF) or (
            "a worker is not told the runtime id of its parent" if is_c(got) or got[0] in ("call", "attr") else None)
    ctx.forall("SwarmingPortal.get_params", ps, ok, "the own runtime id is reported", need=1)


@rule("C37", "liveness", "a parent is live exactly while its own id is recorded")
def c37_live(ctx):
    c = ctx.P.cls("SwarmingPortal")
    f = c.find("parent_runtime_is_live")
    ps = ctx.run(f, cls=c, exc="handlers")

    def ok(p):
        same = None
        for g, b, _ in p.guards:
            u = unver(g)
            if u[0] in ("eq", "is") and any(x[0] == "item" and rec_store(x[1]) for x in u[1:]):
                it = [x for x in u[1:] if x[0] == "item" and rec_store(x[1])][0]
                o = [x for x in u[1:] if x is not it][0]
                k = rec_key(it[2])
                if k is False:
                    return "the id of another record is compared"
                if k is None or u[0] == "is":
                    return None if k is None else "ids are compared by identity"
                if not is_attr(o, "runtime_id", SELF):
                    return "the recorded id is not compared with the portal's" if not has_attr(o, "runtime_id") else None
                same = b
            elif u[0] == "call" and u[1][0] == "attr" and u[1][2] in ("startswith",):
                return "ids are not compared exactly"
        if p.kind == "raise":
            return "an id that cannot be read is an error"
        if p.kind != "return":
            return None
        v = p.value
        if is_c(v):
            if bool(v[2]) and same is not True:
                return "a parent whose id is gone is taken for live"
            if not bool(v[2]) and same is True:
                return "a live parent is taken for dead"
            return True
        u = unver(v)
        if u[0] == "eq" and any(x[0] == "item" and rec_store(x[1]) and rec_key(x[2]) for x in u[1:]) and any(is_attr(x, "runtime_id", SELF) for x in u[1:]):
            return True
        if u[0] == "in":
            return "a parent is live as long as any id is recorded"
        if u[0] == "eq":
            x = [y for y in u[1:] if not is_attr(y, "runtime_id", SELF)]
            if len(x) == 1 and fn_name(x[0]) == "get" and rec_store(x[0][1][1]) and rec_key(x[0][2][0]):
                return True
        return None
    ctx.forall("parent_runtime_is_live", ps, ok, "true only if the recorded id equals the portal's, false on any failure", need=3)
    ctx.exists("parent_runtime_is_live: live", ps, lambda p: True if p.kind == "return" and (not is_c(p.value) or p.value[2]) else False, "can be live")


@rule("C37", "end", "when the runtime ends, or its portals are cleared, the id goes away")
def c37_end(ctx):
    c = ctx.P.cls("SwarmingPortal")
    f = c.find("_clear")
    ps = ctx.run(f, cls=c, exc="none")

    def removes(e):
        if e.kind == "call" and last(e) in ("delete_if_exists", "pop", "__delitem__") and e.recv is not None and rec_store(e.recv):
            return rec_key(list(e.args.values())[0])
        if e.kind == "delitem" and rec_store(e.recv):
            return rec_key(e.args["key"])
        return False

    def cl(p):
        if p.kind != "return":
            return True
        r = [removes(e) for e in events(p)]
        return True if True in r else (None if None in r else "a cleared portal leaves its id")
    ctx.forall("SwarmingPortal._clear", ps, cl, "removes the id", need=1)
    g = ctx.P.func("_clean_runtime_id")
    pg = ctx.run(g, exc="all")

    def ends(p):
        if p.kind == "raise":
            if not any(x.kind == "call" and last(x) == "get_node_signature" and "get_node_signature" in repr(p.value) for x in events(p)):
                return "an error in one portal keeps the ids of others"
            return True
        for l in loops(p.events):
            if l.x["iter"] is None:
                continue
            s = unver(strip_wrappers(l.x["iter"]))
            if s[0] == "item" and s[2][0] == "slice" and s[2][1:3] != (NONE, NONE):
                return "the ids of some portals stay"
            if any(t == STACK for t in terms(s)) and not any(t == ALL for t in terms(s)):
                return "the ids of some portals stay"
            allp = contains(s, ("attr", ("cls", "BasicPortal"), "all_portals")) or any(is_attr(t, "all_portals") for t in terms(s))
            if not allp:
                if has_call(s, "get_entered_portals", "get_noncurrent_portals", "_entered_portals", "_noncurrent_portals", "get_best_portal_to_use"):
                    return "the ids of some portals stay"
                return None
            done = False
            for k, xs, gs in l.x["iters"]:
                if k not in ("next", "continue"):
                    return "after an error the ids of other portals stay"
                r = [removes(x) for x in flat_events(xs)]
                fails = any(x.kind == "except" for x in xs)
                if True in r:
                    done = True
                elif None in r:
                    return None
                elif not fails:
                    if any(has_attr(g_, "runtime_id") or has_attr(g_, "compute_nodes") or u_isinst(g_) for g_, b in gs):
                        continue
                    return "the ids of some portals stay"
            return done or "the ids stay"
        return "the ids of some portals stay" if any(removes(e) for e in events(p)) else None

    def u_isinst(g_):
        g_ = unver(g_)
        return g_[0] in ("isinstance", "hasattr", "in")
    ctx.forall("_clean_runtime_id", pg, ends, "removes the id of this node from every portal, whatever fails", need=1)


@rule("C36", "unloadable", "a call that cannot be loaded is no error, it just cannot be executed")
def c36_unloadable(ctx):
    import ast
    c = ctx.P.cls("PureFnExecutionResultAddr")
    f = c.find("can_be_executed")

    def reads(node):
        return {n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
    need = {"function", "fn"} & reads(f.node)
    safe = set()
    for t in ast.walk(f.node):
        if isinstance(t, ast.Try):
            broad = [h for h in t.handlers if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException"))]
            if any(not any(isinstance(x, ast.Raise) for x in ast.walk(h)) for h in broad):
                for s in t.body:
                    safe |= reads(s)
    if not need:
        ctx.check("can_be_executed", None, f.loc(), "loads the function elsewhere")
        return
    loads = need | ({"kwargs"} & reads(f.node))
    ctx.check("can_be_executed", loads <= safe, f.loc(), "a failure to load function or arguments means the call cannot be executed")


@rule("C36", "randomness", "what is chosen at random is chosen differently by every process")
def c36_randomness(ctx):
    import ast

    def named(t):
        return isinstance(t, (ast.Name, ast.Attribute)) and (t.attr if isinstance(t, ast.Attribute) else t.id) == "entropy_infuser"

    def fixed(e):
        """True: the same in every process, False: not, None: unknown"""
        if isinstance(e, ast.Constant):
            return False if e.value is None else True
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            if n in ("SystemRandom", "urandom", "time", "time_ns", "getpid", "uuid4", "get_random_signature", "now"):
                return False
            if n == "Random":
                return fixed(e.args[0]) if e.args else False
            xs = [fixed(x) for x in list(e.args) + [k.value for k in e.keywords]]
            if n in ("int", "str", "hash", "sum", "abs", "len", "bytes", "crc32", "get_node_signature", "getnode", "get_hash_signature") and True not in xs and None not in xs:
                return n in ("get_node_signature", "getnode")
            return None
        if isinstance(e, ast.BinOp):
            a, b = fixed(e.left), fixed(e.right)
            return True if a and b else (False if a is False or b is False else None)
        return None
    n = 0
    for m in ctx.P.mods.values():
        for x in ast.walk(m.tree):
            v = None
            if isinstance(x, ast.Assign) and any(named(t) for t in x.targets):
                v = x.value
            elif isinstance(x, ast.AnnAssign) and named(x.target):
                v = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "seed" and named(x.func.value):
                v = x.args[0] if x.args else ast.Constant(None)
            if v is None:
                continue
            if isinstance(v, (ast.Name, ast.Attribute)):
                continue                        # another name of it
            f = fixed(v)
            n += 1
            ctx.check(f"entropy_infuser #{n}", None if f is None else not f, f"{m.rel}:{x.lineno}", "not seeded with something fixed")
