"""Executions of pure functions: audit trail, execution frames, execution records (C33, C34, C48)."""
from ..api import API
from .base import *
from .ordinary import ext_call
from .pure import PF, RA, FR, ready_of, cls_call, own, call_addr, is_addr, bodies, recv_of, kw, core, own_portal

ER = "PureFnExecutionRecord"
RECORDS = ("execution_attempts", "execution_results", "execution_outputs", "crashes", "events")


def history(t):
    """t is <portal>.run_history.<fmt> -> fmt"""
    t = unver(t)
    if t[0] == "attr" and is_attr(t[1], "run_history"):
        return t[2]
    return None


def path_of(k, addr):
    """k is addr + [names] -> tuple of terms"""
    k = unver(k)
    if k[0] == "op" and k[1] == "+":
        a, r = unver(k[2]), k[3]
        items = seq_items(r)
        if items is None:
            return None
        if addr(a):
            return tuple(items)
        b = path_of(a, addr)
        return None if b is None else b + tuple(items)
    return None


def places(ctx):
    """where each kind of record of an address lives: name -> (format, path)"""
    if hasattr(ctx, "_places"):
        return ctx._places
    c = ctx.P.cls(RA)
    res = {}
    for n in RECORDS:
        f = c.find(n)
        if f is None:
            continue
        ps = ctx.run(f, cls=c, exc="none")
        got = set()
        for p in ps:
            if p.kind != "return":
                continue
            v = unver(p.value)
            if fn_name(v) != "get_subdict":
                got.add(None)
                continue
            fm = history(recv_of(v))
            k = path_of(v[2][0] if v[2] else v[3][0][1], lambda a: a == SELF)
            got.add((fm, k) if fm and k else None)
        res[n] = (got.pop() if len(got) == 1 else None, ps)
    ctx._places = res
    return res


def place(ctx, e, addr):
    """setitem event -> (format, path incl. the last key) when it is a record of the address"""
    r = unver(e.recv)
    n = r[2] if r[0] == "attr" else fn_name(r)
    base = r[1] if r[0] == "attr" else (recv_of(r) if r[0] == "call" else None)
    if n in RECORDS and base is not None and addr(unver(base)):
        pl = places(ctx).get(n, (None, None))[0]
        if pl is None:
            return None
        return pl[0], pl[1] + (unver(e.args["key"]),)
    fm = history(r)
    if fm:
        k = path_of(e.args["key"], addr)
        if k:
            return fm, k
    return None


SOURCES = ("get_random_signature", "uuid4", "uuid1", "token_hex", "token_urlsafe", "urandom", "getrandbits", "randbits", "SystemRandom")
PLAIN = ("str", "int", "len", "float", "round", "format", "repr", "hash", "time", "time_ns", "monotonic", "getpid", "get_node_signature", "now", "strftime", "isoformat",
         "current_date_gmt_string", "abs", "hex", "lower", "upper", "replace", "join", "get_hash_signature", "hash_signature")


def maybe_random(v):
    """v may be made of something random"""
    if has_call(v, *SOURCES) or any(x[0] in ("mu", "any", "sym") and x != SELF for x in terms(v) if x[0] != "sym" or x[1] not in ("self", "f_address")):
        return True
    return any(x[0] == "call" and fn_name(x) not in PLAIN for x in terms(v))


def own_addr(t):
    return own(t, "fn_address")


def names_session(t, base=SELF):
    return any(unver(x) == ("attr", base, "session_id") for x in terms(t))


def record_of(ctx, p, kind):
    """Events that write a record of the kind on the path"""
    pl = places(ctx).get(kind, (None, None))[0]
    out = []
    for e in events(p):
        if e.kind == "setitem" and not failed(e):
            x = place(ctx, e, own_addr)
            if x is not None and pl is not None and x[0] == pl[0] and x[1][:len(pl[1])] == pl[1]:
                out.append((e, x[1][-1]))
    return out


# ------------------------------------------------------------------ C33
@rule("C33", "attempt", "every execution starts with a record of the attempt")
def c33_attempt(ctx):
    c = ctx.P.cls(FR)
    ps = ctx.run(c.find("__init__"), cls=c, exc="none")

    def sid(p):
        if p.kind != "return":
            return True
        w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "session_id"]
        if not w:
            return "an execution has no name of its own"
        v = w[-1].args["value"]
        if has_call(v, "get_random_signature"):
            for x in terms(v):
                if x[0] == "item" and x[2][0] == "slice" and has_call(x[1], "get_random_signature") and is_c(x[2][2]) and isinstance(x[2][2][2], int) \
                        and 0 <= x[2][2][2] < 12:
                    return "names of executions are too short to be told apart"
            return True
        return None if maybe_random(v) else "executions are not told apart by a random name"
    ctx.forall("session", ps, sid, "a new random name for every execution", need=1)

    def fields(p):
        if p.kind != "return":
            return True
        w = {e.name: unver(e.args["value"]) for e in events(p) if e.kind == "setattr" and e.recv == SELF}
        a = sym(c.find("__init__").params()[0][1])
        if w.get("fn_address") != a:
            return "records are kept for another call" if "fn_address" in w else "an execution does not know its call"
        f = w.get("fn")
        if f is not None and not (f[0] == "attr" and f[2] in ("fn", "function", "_function") and f[1] == a) and not (
                fn_name(f) in ("fn", "function") and recv_of(f) == a):
            return None
        return w.get("exception_counter") == C(0) or "exceptions are not counted from zero"
    ctx.forall("frame", ps, fields, "of the call that is executed", need=1)
    f = c.find("register_execution_attempt")
    pa = ctx.run(f, cls=c, exc="none")

    def att(p):
        if p.kind != "return":
            return True
        r = record_of(ctx, p, "execution_attempts")
        if not r:
            return "the attempt is not recorded"
        e, k = r[-1]
        if not names_session(k):
            return None if not is_c(k) and maybe_random(k) else "the record of an attempt is not named after the execution"
        v = e.args["value"]
        if not has_call(v, "build_execution_environment_summary", "add_execution_environment_summary"):
            return "the record of an attempt lacks the environment"
        return True
    ctx.forall("attempt", pa, att, "named after the execution, with the environment", need=1)

    def src(p):
        if p.kind != "return":
            return True
        plain = aug = False
        for e in events(p):
            if e.kind != "setitem" or failed(e):
                continue
            x = place(ctx, e, own_addr)
            v = unver(e.args["value"])
            n = v[2] if v[0] == "attr" else fn_name(v)
            if n == "fn_source_code":
                if x is None:
                    return None
                plain = x
            if n == "augmented_fn_source_code":
                if x is None:
                    return None
                aug = x
        if not plain or not aug:
            return "the source code of what is executed is not recorded" if not plain else \
                "the code of the functions used is not recorded"
        return plain != aug or "two records overwrite each other"
    ctx.forall("source", pa, src, "the function and what it uses", need=1)
    en = c.find("__enter__")
    pe = ctx.run(en, cls=c, exc="none")

    def enters(p):
        if p.kind != "return":
            return True
        n = len([e for e in events(p) if e.kind == "call" and last(e) == "register_execution_attempt" and e.recv == SELF])
        n += len(record_of(ctx, p, "execution_attempts"))
        return n == 1 or ("an execution starts without a record" if not n else "an attempt is recorded twice")
    ctx.forall("__enter__", pe, enters, "the attempt is recorded before the body runs", need=1)


@rule("C33", "course", "the body runs inside the frame, its result and output are recorded")
def c33_course(ctx):
    c = ctx.P.cls(PF)
    ps = ctx.run(c.find("execute"), cls=c, exc="none")

    def inside(p):
        evs = events(p, False)
        b = bodies(p)
        if not b:
            return True
        ib = evs.index(b[0]) if b[0] in evs else None
        if ib is None:
            return None
        depth, fr = 0, None
        for i, e in enumerate(evs):
            if i == ib:
                return depth > 0 or "the function is executed without a frame that records it"
            isf = e.recv is not None and cls_call(e.recv, FR)
            if isf and (e.kind == "with_enter" or (e.kind == "call" and last(e) == "__enter__")):
                a = next((v for _, v in e.recv[3]), None)
                r = call_addr(a) if a is not None else None
                if r is not True:
                    return None if r is None else "the frame belongs to " + r
                depth += 1
            if isf and (e.kind == "with_exit" or (e.kind == "call" and last(e) == "__exit__")):
                depth -= 1
        return None
    ctx.forall("execute: frame", ps, inside, "inside a frame of the call", sel=lambda p: bool(bodies(p)), need=2)

    def res(p):
        if p.kind != "return":
            return True
        b = bodies(p)
        evs = events(p)
        r = [e for e in evs if e.kind == "call" and last(e) == "register_execution_result"]
        if not r:
            return "the result of an execution is not recorded"
        v = next(iter(r[0].args.values()), None)
        if not cls_call(v, "ValueAddr"):
            return "something else than the result of the execution is recorded" if v is None or not contains(v, b[0].res) else None
        if dict(v[3]).get("data") != b[0].res:
            return "something else than the result of the execution is recorded"
        w = [i for i, e in enumerate(evs) if e.kind == "setitem" and is_attr(unver(e.recv), "execution_results")]
        if w and evs.index(r[0]) > w[0]:
            return "a result is published before the execution it comes from is recorded"
        return True
    ctx.forall("execute: result", ps, res, "recorded before it is published", sel=lambda p: bool(bodies(p)), need=2)
    f = ctx.P.cls(FR)
    g = f.find("register_execution_result")
    pr = ctx.run(g, cls=f, exc="none")
    R = sym(g.params()[0][1])

    def rec(p):
        if p.kind != "return":
            return True
        r = record_of(ctx, p, "execution_results")
        if not r:
            return "the result of an execution is not recorded where records of results are looked for"
        e, k = r[-1]
        if not names_session(k):
            return "the record of a result is not named after the execution"
        return e.args["value"] == R or "another result is recorded"
    ctx.forall("result", pr, rec, "named after the execution", need=1)
    px = ctx.run(f.find("__exit__"), cls=f, exc="none")

    def out(p):
        if p.kind != "return":
            return True
        r = record_of(ctx, p, "execution_outputs")
        if not r:
            cond = [g for g, _, _ in p.guards]
            if any(has_call(g, "get_output") for g in cond):
                return "some outputs are not recorded"
            return "what was printed is lost" if not cond or any(
                contains(g, sym(x)) for g in cond for x in f.find("__exit__").params()[0][1:]) else None
        e, k = r[-1]
        if not names_session(k):
            return "the recorded output is not named after the execution"
        v = e.args["value"]
        if fn_name(v) != "get_output" or not own(recv_of(v), "output_capturer"):
            if not has_call(v, "get_output"):
                return "something else than the captured output is recorded"
            return "the recorded output is altered" if v[0] in ("item", "op", "cat") or v[0] == "call" and v[1][0] == "attr" else None
        evs = events(p)
        x = [i for i, y in enumerate(evs) if y.kind in ("call", "with_exit") and last(y) == "__exit__" and own(y.recv, "output_capturer")]
        gi = [i for i, y in enumerate(evs) if y.kind == "call" and last(y) == "get_output"]
        if not x or min(x) > gi[-1]:
            return "the output is read while it is still being captured"
        return True
    ctx.forall("output", px, out, "recorded when the execution ends, normally or not", need=1)


@rule("C33", "crash", "an exception of the body is recorded with the call")
def c33_crash(ctx):
    f = ctx.P.cls(FR)
    g = f.find("register_exception")
    ps = ctx.run(g, cls=f, exc="none")
    ID, DATA = [sym(x) for x in g.params()[0][1:3]]

    def rec(p):
        if p.kind != "return":
            return True
        r = record_of(ctx, p, "crashes")
        if not r:
            return "an exception is not recorded with its call"
        e, k = r[-1]
        if k != ID and not contains(k, ID):
            return "an exception is recorded under another name"
        if e.args["value"] != DATA:
            return "something else is recorded" if not contains(e.args["value"], DATA) else None
        w = [x for x in events(p) if x.kind == "setattr" and x.recv == SELF and x.name == "exception_counter"]
        if not w:
            return "exceptions of an execution get the same name"
        v = unver(w[-1].args["value"])
        if v == ("op", "+", ("attr", SELF, "exception_counter"), C(1)) or v == ("op", "+", C(1), ("attr", SELF, "exception_counter")):
            return True
        return None if v[0] == "op" else "exceptions of an execution get the same name"
    ctx.forall("crash", ps, rec, "recorded and counted", need=1)
    c = ctx.P.cls(PF)
    h = c.find("_persist_exception_information")
    pp = ctx.run(h, cls=c, exc="none")
    top = ("item", ("attr", SELF, "call_stack"), C(-1))

    def reg(p):
        if p.kind != "return":
            return True
        stack = ("attr", SELF, "call_stack")
        sizes, unk = {0, 1, 2}, False
        for g, b, _ in p.guards:
            if not contains(unver(g), stack):
                continue
            for n in (0, 1, 2):
                v = teval(unver(g), lambda t: n if t == ("call", ("ext", "len"), (stack,), (), 0) else (
                    list(range(n)) if t == stack else UNK))
                if v is UNK:
                    unk = True
                elif bool(v) != b:
                    sizes.discard(n)
        r = [e for e in events(p) if e.kind == "call" and last(e) == "register_exception"]
        if p.value == NONE:
            return not r or "an exception that is not recorded elsewhere is recorded with the call"
        if sizes <= {0}:
            return True
        if not r:
            return None if unk else "the exception is not recorded with the call"
        e = r[0]
        if unver(e.recv) != top:
            return "the exception is recorded with another execution" if unver(e.recv)[0] == "item" else None
        a = list(e.args.values())
        if e.args.get("data_to_persist", a[-1]) != p.value:
            return None
        i = e.args.get("exception_id", a[0])
        return contains(i, sym("exception_id")) or "the exception is recorded under another name"
    ctx.forall("reporting", pp, reg, "reported to the innermost running execution", need=2)
    i = c.find("_exception_id")
    pi = ctx.run(i, cls=c, exc="none")

    def ident(p):
        if p.kind != "return":
            return None
        v = p.value
        run = any(unver(x) == top for x in terms(v))
        if run:
            if not names_session(v, top):
                return "the name of a crash does not tell the execution"
            if not any(unver(x) == ("attr", top, "exception_counter") for x in terms(v)):
                return "two exceptions of an execution get the same name"
            return cls_call(v, "AlreadyRandomized") or None
        return cls_call(v, "NeedsRandomization") or (
            "crashes outside of executions may get the same name" if cls_call(v, "AlreadyRandomized") else None)
    ctx.forall("name of a crash", pi, ident, "tells the execution, unique", need=2)

    def runs_named(p):
        v = p.value
        return isinstance(v, tuple) and any(unver(x) == top for x in terms(v))
    ctx.exists("name of a crash", pi, runs_named, "crashes of an execution are named after it")


@rule("C33", "permanence", "records are written once and never changed")
def c33_perm(ctx):
    c = ctx.P.cls("PureCodePortal")
    ps = ctx.run(c.find("__init__"), cls=c, exc="none")

    def ok(p):
        if p.kind != "return":
            return True
        w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "run_history"]
        if not w:
            return "there is no place for records"
        v = w[-1].args["value"]
        if not cls_call(v, "OverlappingMultiDict"):
            return None
        d = dict_parts(dict(v[3]).get("individual_subdicts_params", NONE))
        if d is None or d[1]:
            return None
        for n, (pl, _) in places(ctx).items():
            if pl is None:
                return None
            if pl[0] not in d[0]:
                return f"there is no place for {n}"
            q = dict_parts(d[0][pl[0]])
            if q is None or q[1]:
                return None
            im = q[0].get("immutable_items")
            if im != TRUE:
                return f"recorded {n} can be overwritten" if im is None or im == FALSE else None
        return True
    ctx.forall("run history", ps, ok, "attempts, results, outputs and crashes are write-once", need=1)


# ------------------------------------------------------------------ C34
def enters_portal(e):
    return e.kind in ("with_enter", "call") and last(e) == "__enter__" and own(e.recv, "portal")


def leaves_portal(e):
    return e.kind in ("with_exit", "call") and last(e) == "__exit__" and own(e.recv, "portal")


def cap(e, n):
    return e.kind in ("with_enter", "with_exit", "call") and last(e) == n and e.recv is not None and own(e.recv, "output_capturer")


def stack_of(t):
    t = unver(t)
    return is_attr(t, "call_stack") and (own(t[1], "fn") or (is_attr(t[1], "fn", "function") and own(t[1][1], "fn_address"))
                                         or fn_name(t[1]) in ("fn", "function"))


def pushes(e):
    return e.kind == "call" and last(e) == "append" and stack_of(e.recv)


def pops(e):
    if e.kind == "call" and e.recv is not None and stack_of(e.recv):
        a = list(e.args.values())
        return last(e) == "pop" and (not a or a[0] == C(-1)) or last(e) == "remove" and a == [SELF]
    return e.kind == "delitem" and stack_of(e.recv) and unver(e.args["key"]) == C(-1)


def spoils(e):
    """takes something else off a call stack"""
    if e.kind == "call" and e.recv is not None and stack_of(e.recv):
        return last(e) in ("pop", "clear", "remove") and not pops(e)
    return e.kind == "delitem" and stack_of(e.recv) and not pops(e)


@rule("C34", "entering", "a frame is entered once and completely")
def c34_enter(ctx):
    c = ctx.P.cls(FR)
    i = ctx.run(c.find("__init__"), cls=c, exc="none")
    flag = "context_used"
    # the flag that makes a frame single-use
    flags = set()
    for p in i:
        for e in events(p):
            if e.kind == "setattr" and e.recv == SELF and e.args["value"] == FALSE:
                flags.add(e.name)
    f = c.find("__enter__")
    ps = ctx.run(f, cls=c, exc="none")

    def effects(p):
        return [e for e in events(p) if enters_portal(e) or cap(e, "__enter__") or pushes(e)
                or (e.kind == "call" and last(e) == "register_execution_attempt")]

    def used(flag, val):
        def atom(t):
            if unver(t) == ("attr", SELF, flag):
                return val
            if is_attr(unver(t), "exception_counter", SELF) or is_attr(unver(t), "event_counter", SELF):
                return 0
            return UNK
        return atom
    good = None
    for fl in sorted(flags):
        at = used(fl, True)
        cand = [p for p in ps if consistent(p, at)]
        if cand and all(p.kind == "raise" for p in cand) and any(
                teval(g, at) is not UNK for p in cand for g, _, _ in p.guards):
            good = fl
    if ps.paths is None:
        ctx.check("single use", None, f.loc(), ps.why)
    else:
        ctx.check("single use", good is not None, f.loc(), "a frame can be entered a second time" if good is None
                  else "the second use of a frame is refused")
    if good:
        def marks(p):
            ef = effects(p)
            evs = events(p)
            m = [j for j, e in enumerate(evs) if e.kind == "setattr" and e.recv == SELF and e.name == good and e.args["value"] == TRUE]
            if not ef:
                return True
            return bool(m) and m[0] < evs.index(ef[0]) or "the use of a frame is not noted before it has effects"
        ctx.forall("single use: noted", ps, marks, "noted before anything happens", need=1)
        for n, m in sorted(c.methods.items()):
            if n == "__init__" or n.startswith("_") and not n.endswith("__") and m.qual not in API:
                continue

            def again(p):
                for e in events(p):
                    if e.kind == "setattr" and e.recv == SELF and e.name == good and e.args["value"] != TRUE:
                        v = teval(e.args["value"], lambda t: 0 if is_attr(unver(t), "exception_counter", SELF)
                                  or is_attr(unver(t), "event_counter", SELF) else UNK)
                        return "a frame can be used again" if is_c(e.args["value"]) or v is not UNK and not v else None
                return True
            ctx.forall(f"single use: {n}", ctx.run(m, cls=c, exc="none"), again, "what was used stays used")

    def capture(p):
        if p.kind != "return":
            return True
        w = [e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "output_capturer"]
        if not w:
            return None
        v = unver(w[-1])
        if cls_call(v, "OutputCapturer"):
            return True
        return "executions share one capture of the output" if v[0] == "gvar" or v[0] == "attr" and v[1][0] == "cls" else None
    ctx.forall("capture", i, capture, "a capture of its own for every frame")

    def refused(p):
        if p.kind != "raise":
            return True
        return not effects(p) or None
    ctx.forall("refusal", ps, refused, "a refused use changes nothing")

    def whole(p):
        if p.kind != "return":
            return True
        evs = events(p)
        if p.value != SELF:
            return "entering a frame does not give the frame"
        for what, t in (("the portal is not made current", enters_portal), ("the output is not captured", lambda e: cap(e, "__enter__")),
                        ("the frame is not put on the call stack of its function", pushes)):
            n = [e for e in evs if t(e)]
            if len(n) != 1:
                return what if not n else what.replace(" not", "") + " more than once"
        pu = next(e for e in evs if pushes(e))
        if SELF not in pu.args.values():
            return "something else is put on the call stack"
        return True
    ctx.forall("__enter__", ps, whole, "portal entered, output captured, frame on the stack", need=1)
    pa = ctx.run(f, cls=c, exc="all", base_exc=True, raises=lambda e: e.kind == "call" and last(e) == "register_execution_attempt")

    def undone(p):
        bad = [e for e in events(p, False) if failed(e) and last(e) == "register_execution_attempt"]
        if not bad:
            return True
        if p.kind != "raise":
            return "an execution whose start could not be recorded goes on"
        evs = events(p, False)
        j = evs.index(bad[0])
        after = evs[j:]
        if any(e.kind in ("call", "with_exit") and last(e) == "__exit__" and e.recv == SELF for e in after):
            return True
        ok = any(leaves_portal(e) for e in after) and any(cap(e, "__exit__") for e in after) and any(pops(e) for e in after)
        return ok or "a frame that could not be entered stays half entered"
    ctx.forall("failing entry", pa, undone, "undone completely", need=2)


@rule("C34", "leaving", "a frame is left completely, however recording goes")
def c34_exit(ctx):
    c = ctx.P.cls(FR)
    f = c.find("__exit__")
    ps = ctx.run(f, cls=c, exc="all", raises=lambda e: not pops(e) and not cap(e, "__exit__")
                 and not (e.kind == "call" and last(e) == "get_output" and False))

    def ok(p):
        evs = events(p, False)
        for what, t in (("the portal stays current", leaves_portal),
                        ("the output capturing goes on", lambda e: cap(e, "__exit__")),
                        ("the frame stays on the call stack", pops)):
            n = [e for e in evs if t(e)]
            if not n:
                return what + " on some way out"
            if len(n) > 1:
                return what.split(" stays")[0].split(" goes")[0] + " is left more than once"
        if any(spoils(e) for e in evs):
            return "another frame is taken off the call stack"
        if p.kind == "return" and p.value is not None:
            v = unver(p.value)
            if is_c(v):
                return not v[2] or "an exception of the body is swallowed"
            if v[0] in ("eq", "is", "in", "isinstance", "not", "isnone", "truthy", "and", "or", "lt"):
                return "some exceptions of the body are swallowed"
        return True
    ctx.forall("__exit__", ps, ok, "portal left, capture ended, frame off the stack, once each", need=3)
    pc = ctx.run(f, cls=c, exc="all", raises=lambda e: cap(e, "__exit__"))

    def okc(p):
        evs = events(p, False)
        if not any(failed(e) and cap(e, "__exit__") for e in evs):
            return True
        if not any(leaves_portal(e) for e in evs):
            return "the portal stays current when the capturing ends with an error"
        return any(pops(e) for e in evs) or "the frame stays on the call stack when the capturing ends with an error"
    ctx.forall("__exit__: capture fails", pc, okc, "portal left and frame off the stack", need=2)

    def passes(p):
        for e in events(p, False):
            if leaves_portal(e) or cap(e, "__exit__"):
                a = [unver(v) for v in e.args.values()]
                par = [sym(x) for x in f.params()[0][1:]]
                if a and a[:3] != par:
                    return "the portal does not learn about the exception" if leaves_portal(e) and all(is_c(x) for x in a) else None
        return True
    ctx.forall("__exit__: exception", ps, passes, "the exception is passed on", need=1)


# ------------------------------------------------------------------ C48
@rule("C48", "places", "records of different kinds are kept apart")
def c48_places(ctx):
    pls = places(ctx)
    c = ctx.P.cls(RA)
    seen = {}
    for n in RECORDS:
        pl, ps = pls.get(n, (None, None))
        if pl is None:
            ctx.check(n, None, c.loc(), "where these records are kept is not known")
            continue
        if not pl[1] or not all(is_c(x) for x in pl[1]):
            ctx.check(n, None, c.loc(), "path is not constant")
            continue
        other = seen.get(pl)
        ctx.check(n, other is None, c.find(n).loc(), f"{n} and {other} of a call are the same records" if other else "a place of its own")
        seen[pl] = n


@rule("C48", "association", "a record gives exactly what belongs to its execution")
def c48_record(ctx):
    c = ctx.P.cls(ER)
    addr = lambda t: own(t, "result_addr")

    def src_is(t, kind):
        t = unver(t)
        n = t[2] if t[0] == "attr" else fn_name(t)
        b = t[1] if t[0] == "attr" else (recv_of(t) if t[0] == "call" else None)
        return n == kind and b is not None and addr(b)

    def mine(g, el, kind=None):
        """condition: the key el belongs to the own session -> True/False (polarity)"""
        g = unver(g)
        if g[0] == "in" and g[1] == ("attr", SELF, "session_id"):
            k = g[2]
            if k == ("item", el, C(-1)) or k == el:
                return True
        if g[0] == "call" and g[1][0] == "attr" and g[1][2] in ("startswith",) and g[1][1] == ("item", el, C(-1)):
            a = unver(g[2][0]) if g[2] else NONE
            if a[0] == "item" and a[2][0] == "slice" and a[1] == ("attr", SELF, "session_id"):
                return "foreign"
            return True
        if g[0] == "truthy":
            return mine(g[1], el, kind)
        if g[0] == "not":
            return None
        S = "run0123456789abcdefghijkl"

        def says(key):
            def at(t):
                if t == ("attr", SELF, "session_id"):
                    return S
                if t == ("item", el, C(-1)):
                    return key
                return UNK
            return teval(g, at)
        res = set()
        for fmt in {"execution_attempts": ("%s_a",), "execution_outputs": ("%s_output",), "execution_results": ("%s",),
                    "crashes": ("f_main_PURE_ValueError_%s_0", "f_main_PURE_ValueError_%s_12")}.get(
                        kind, ("%s_a", "%s_output", "%s", "X_%s_0", "%s_e_0")):
            o = [says(fmt % k) for k in (
                "run0123456789abcdefghijkm", "run0123456789abcdefghijk0", "run1123456789abcdefghijkl", "run0120000000000000000000",
                "runzzzzzzzzzzzzzzzzzzzzzz")]
            w = says(fmt % S)
            if UNK in o or w is UNK:
                return None
            res.add((bool(w), any(o), all(o)))
        if all(r == (True, False, False) for r in res):
            return True
        if all(r == (False, True, True) for r in res):
            return False
        if kind in ("execution_attempts", "execution_outputs", "execution_results", "crashes"):
            return "foreign"
        return "foreign" if any(r[0] and r[1] for r in res) else None

    def entry(v, kind):
        """v is <records>[el] with el from the records -> el"""
        v = unver(v)
        if v[0] == "item" and src_is(v[1], kind):
            el = v[2]
            if el[0] == "elem" and src_is(strip_wrappers(el[1]), kind):
                return el
            return False
        return None

    def single(name, kind, miss, get=False):
        f = c.find(name)
        if f is None:
            ctx.check(name, None, c.loc(), "no such property")
            return
        ps = ctx.run(f, cls=c, exc="none")

        def ok(p):
            if p.kind == "raise":
                if miss != "raise":
                    return "looking for a record that does not exist fails" if not any(True for _ in loops(p.events)) else None
                return True
            if p.kind != "return":
                return None
            v = unver(p.value)
            if get:
                if fn_name(v) == "get" and recv_of(v) is not None:
                    v = unver(recv_of(v))
                elif entry(v, kind):
                    return "the address of the result is given instead of the result"
            el = entry(v, kind)
            if el:
                for g, b, _ in p.guards:
                    m = mine(g, el, kind)
                    if m is not None:
                        return m == b or "records of other executions are given"
                return "records of other executions are given" if not any(names_session(g) for g, _, _ in p.guards) else None
            if v == NONE:
                if miss == "raise":
                    return "a missing result looks like a result"
                # every entry was looked at
                for l in loops(p.events):
                    if l.x["iter"] is None or not src_is(strip_wrappers(l.x["iter"]), kind):
                        continue
                    e2 = ("elem", unver(l.x["iter"]))
                    for k, xs, gs in l.x["iters"]:
                        if k == "next":
                            ms = [mine(g[0], e2, kind) == g[1] for g in gs if mine(g[0], e2, kind) is not None]
                            if not ms or ms[0]:
                                return "records of the execution are passed over" if ms or not gs else None
                        elif k == "break":
                            return "records of the execution are passed over"
                    return True
                return None if any(True for _ in loops(p.events)) else "the records are not looked at"
            for other in RECORDS:
                if other != kind and entry(v, other):
                    return f"{other} are given as {name}"
            if is_c(v):
                return "a missing record looks like one"
            n = v[2] if v[0] == "attr" else fn_name(v)
            b = v[1] if v[0] == "attr" else (recv_of(v) if v[0] == "call" else None)
            if get and addr(v):
                return "something of another execution is given"
            if b is not None and addr(unver(b)) and str(n) in ("get", "result", "execute") or str(n).startswith("last_"):
                return "something of another execution is given"
            return None
        ctx.forall(name, ps, ok, "the entry named after the execution", need=2)
    single("output", "execution_outputs", "none")
    single("attempt_context", "execution_attempts", "none")
    single("result", "execution_results", "raise", get=True)

    def many(name, kind):
        f = c.find(name)
        if f is None:
            ctx.check(name, None, c.loc(), "no such property")
            return
        ps = ctx.run(f, cls=c, exc="none")

        def ok(p):
            if p.kind != "return":
                return None
            v = p.value
            if v[0] == "mu":
                vals = ps.it.mus.get(v, ())
                if any(y[0] == "list" and len(y[1]) == 1 and y[1][0][0] == "one" and entry(y[1][0][1], kind) for y in vals):
                    return "only one record of the execution is given"
            if v[0] != "list":
                return None
            if not v[1]:
                return "nothing is given"
            for x in v[1]:
                if x[0] != "each":
                    return None
                el = entry(x[1], kind)
                if not el:
                    for other in RECORDS:
                        if other != kind and entry(x[1], other):
                            return f"{other} are given as {name}"
                    return None
                ms = [mine(g[0], el, kind) == g[1] for g in x[3] if mine(g[0], el, kind) is not None]
                if not ms:
                    return "records of other executions are given" if not any(names_session(g[0]) for g in x[3]) else None
                if not all(ms):
                    return "records of other executions are given"
                if len(ms) < len(x[3]):
                    return "some records of the execution are left out" if any(
                        contains(unver(g[0]), el) for g in x[3] if mine(g[0], el, kind) is None) else None
            if any(k == "break" for l in loops(p.events) for k, _, _ in l.x["iters"]):
                return "some records of the execution are left out"
            return True
        ctx.forall(name, ps, ok, "all entries named after the execution and no others", need=1)
    many("crashes", "crashes")
    many("events", "events")
    f = c.find("kwargs")
    ps = ctx.run(f, cls=c, exc="none")
    ctx.forall("kwargs", ps, lambda p: None if p.kind != "return" else (
        True if (is_attr(unver(p.value), "kwargs") and addr(unver(p.value)[1])) or (
            fn_name(p.value) == "kwargs" and addr(recv_of(p.value))) else None), "those of the call", need=1)
    i = c.find("__init__")
    pi = ctx.run(i, cls=c, exc="none")
    A, S = [sym(x) for x in i.params()[0][1:3]]

    def keeps(p):
        if p.kind != "return":
            return True
        w = {e.name: e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF}
        return (w.get("result_addr") == A and w.get("session_id") == S) or "a record belongs to another execution"
    ctx.forall("record", pi, keeps, "of the call and execution it was made for", need=1)


@rule("C48", "completeness", "one record per attempt, named as the frame named it")
def c48_all(ctx):
    c = ctx.P.cls(RA)
    f = c.find("execution_records")
    ps = ctx.run(f, cls=c, exc="none")
    # how an attempt is named: session + suffix
    fr = ctx.P.cls(FR)
    pa = ctx.run(fr.find("register_execution_attempt"), cls=fr, exc="none")
    suffix = set()
    for p in pa:
        for e, k in record_of(ctx, p, "execution_attempts"):
            k = unver(k)
            if k == ("attr", SELF, "session_id"):
                suffix.add("")
            elif k[0] == "cat" and k[1][0] == ("attr", SELF, "session_id") and all(is_c(x) for x in k[1][1:]):
                suffix.add("".join(x[2] for x in k[1][1:]))
            else:
                suffix.add(None)
    suf = suffix.pop() if len(suffix) == 1 else None

    def ok(p):
        if p.kind != "return":
            return None
        v = p.value
        if v[0] != "list" or len(v[1]) != 1 or v[1][0][0] != "each":
            return "there are no records" if v[0] == "list" and not v[1] else None
        x = v[1][0]
        if x[3]:
            return "some attempts have no record"
        if any(t[0] == "item" and t[2][0] == "slice" or ext_call(t, "islice") for t in terms(x[2])):
            return "some attempts have no record"
        if not own(strip_wrappers(x[2]), "execution_attempts"):
            return "records are made from something else than the attempts" if own(strip_wrappers(x[2]), *RECORDS) else None
        if not cls_call(x[1], ER):
            return None
        d = dict(x[1][3])
        if d.get("result_addr") != SELF:
            return "the records belong to another call"
        s = unver(d.get("session_id", NONE))
        key = ("item", ("elem", unver(x[2])), C(-1))
        if suf is None:
            return None
        if s == key:
            return suf == "" or "a record is not named as its execution"
        if s[0] == "item" and s[1] == key and s[2][0] == "slice":
            lo, hi, st = s[2][1:4]
            if lo in (NONE, C(0)) and st == NONE and is_c(hi) and isinstance(hi[2], int):
                return hi[2] == -len(suf) or "a record is not named as its execution"
        if s[0] == "item" and s[1] == key and s[2][0] == "call" and s[2][1] == ("ext", "slice"):
            lo, hi, st = (list(s[2][2]) + [NONE, NONE, NONE])[:3]
            if lo in (NONE, C(0)) and st == NONE and is_c(hi) and isinstance(hi[2], int):
                return hi[2] == -len(suf) or "a record is not named as its execution"
        if s[0] == "call" and s[1][0] == "attr" and s[1][2] == "removesuffix" and s[1][1] == key:
            return s[2][0] == C(suf) or "a record is not named as its execution"
        for name in ("run0123456789abcdefghijkl", "runa0a0a0a0a0a0a0a0a0a0aa", "run_a0123456789abcdefghi"[:3] + "aaaaaaaaaaaaaaaaaaaaaa"):
            y = teval(s, lambda t: name + suf if t == key else UNK)
            if y is UNK:
                return None
            if y != name:
                return "a record is not named as its execution"
        return True
    ctx.forall("execution_records", ps, ok, "one per attempt", need=1)

    for n, kind in (("last_execution_attempt", "execution_attempts"), ("last_execution_output", "execution_outputs"),
                    ("last_crash", "crashes"), ("last_event", "events")):
        g = c.find(n)
        if g is None:
            ctx.check(n, None, c.loc(), "no such property")
            continue
        pn = ctx.run(g, cls=c, exc="none")

        def having(k, kind=kind):
            def atom(t):
                t = unver(t)
                if fn_name(t) in ("newest_values", "oldest_values") or own(t, kind):
                    return ["x"] * k
                return UNK
            return atom

        def newest(p, kind=kind, n=n):
            if p.kind != "return":
                return None
            v = unver(p.value)
            over = [l for l in loops(p.events) if fn_name(l.x["iter"] or NONE) in ("newest_values", "oldest_values")]
            if len(over) == 1 and not p.guards and (v == NONE or v[0] == "elem"):
                # a loop over the records that is left with the first one
                l = over[0]
                s = unver(l.x["iter"])
                if any(k == "next" or gs for k, _, gs in l.x["iters"]) or not (v == NONE or unver(v[1]) == s):
                    return None
                if v == NONE:
                    return True if l.x["iters"] else None
                if not own(recv_of(s), kind):
                    return f"something else is given as {n}" if own(recv_of(s), *RECORDS) else None
                return fn_name(s) == "newest_values" or "another than the newest record is given"
            if v == NONE and consistent(p, having(1)):
                if any(ready_of(x) == SELF for g_, _, _ in p.guards for x in terms(unver(g_)) if x[0] in ("call", "attr")):
                    return "the newest record is not given in every case"
                return "the newest record is not given" if any(
                    teval(g_, having(1)) is not UNK for g_, _, _ in p.guards) or not p.guards else None
            if v != NONE and p.guards and consistent(p, having(0)):
                return "it fails if there is no record" if any(
                    teval(g_, having(0)) is not UNK for g_, _, _ in p.guards) else None
            if v[0] == "elem" and fn_name(strip_wrappers(v[1])) in ("newest_values", "oldest_values") and any(
                    contains(unver(g_), v) for g_, _, _ in p.guards):
                return "another than the newest record is given"
            if ext_call(v, "next") and v[2] and v[2][0][0] == "list" and any(
                    x[0] == "each" and x[3] for x in v[2][0][1]):
                return "another than the newest record is given"
            if v[0] == "item" and is_c(v[2]) and v[2][2] in (0, -1):
                y, rev = v[1], False
                while y[0] == "item" and y[2] == ("slice", NONE, NONE, C(-1)) or ext_call(y, "list", "reversed"):
                    rev ^= y[0] == "item" or ext_call(y, "reversed")
                    y = y[1] if y[0] == "item" else y[2][0]
                if rev and fn_name(y) == "newest_values" and v[2][2] == 0:
                    return "another than the newest record is given"
            if v[0] == "item" and fn_name(v[1]) in ("newest_values", "oldest_values"):
                s = recv_of(v[1])
                if not own(s, kind):
                    return f"something else is given as {n}" if own(s, *RECORDS) else None
                nw = fn_name(v[1]) == "newest_values"
                if v[2] == C(0 if nw else -1):
                    return True
                return "another than the newest record is given" if is_c(v[2]) else None
            if v == NONE:
                for g_, b, _ in p.guards:
                    for t in terms(unver(g_)):
                        if fn_name(t) in ("newest_values", "oldest_values") or own(t, kind):
                            return True
                return "the newest record is not given"
            return None
        ctx.forall(n, pn, newest, "the newest record, or nothing", need=2)
