"""Capturing and suppressing output (C38, C39)."""
from .base import *
from .data import normal_dict

SYS = ("mod", "sys")
ROOT = ("attr", ("mod", "logging"), "root")
STREAMS = [("stdout", SYS), ("stderr", SYS)]
LOGS = ("handlers", ROOT)


def target(e):
    """('stdout' | 'stderr' | 'handlers') if the event replaces one of them"""
    if e.kind == "setattr":
        r = unver(e.recv)
        if r in (SYS, ("ext", "sys")) and e.name in ("stdout", "stderr"):
            return e.name
        if e.name == "handlers" and (r == ROOT or (r[0] == "call" and last_name(r) == "getLogger" and not r[2] and not r[3]) or (
                r[0] in ("ext", "attr") and tstr(r).endswith("logging.root"))):
            return "handlers"
    return None


def last_name(t):
    return fn_name(t)


def final(p):
    out = {}
    for e in events(p):
        k = target(e)
        if k:
            out[k] = e.args["value"]
    return out


def current(t, k):
    """t is what k is at this moment (a copy, for the handlers)"""
    t = unver(t)
    if k in ("stdout", "stderr"):
        return t == ("attr", SYS, k) or t == ("ext", "sys." + k)
    while True:
        if t[0] == "item" and t[2] == ("slice", NONE, NONE, NONE):
            t = t[1]
        elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("list", "tuple") and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] == "copy" and not t[2]:
            t = t[1][1]
        elif t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "*":
            t = t[1][0][1]
        else:
            break
    return t == ("attr", ROOT, "handlers") or (is_attr(t, "handlers") and t[1][0] == "call" and last_name(t[1]) == "getLogger" and not t[1][2])


class Fields:
    """What the fields of an object hold after its construction (and entering)."""
    def __init__(self, ctx, cls, names=("__init__", "__enter__")):
        self.known, self.why = {}, None
        self.sometimes = set()
        self.calls = []
        self.ways = {}
        for n in names:
            f = cls.find(n)
            if f is None:
                continue
            ps = ctx.run(f, cls=cls, exc="none")
            done = [p for p in ps if p.kind == "return"] if ps.paths is not None else []
            if not done or len(done) > 8:
                self.why = f"{n} has {len(done)} ways"
                continue
            ways = []
            for p in done:
                known, called = {}, []
                early = True
                for e in events(p):
                    if target(e):
                        early = False
                    if e.kind == "call":
                        called.append(e)
                    if e.kind == "setattr" and e.recv == SELF:
                        known[e.name] = (e.args["value"], early or n == "__init__")
                ways.append((known, called))
            self.calls += max((c for _, c in ways), key=len)
            self.ways[n] = ways
            for k in {k for w, _ in ways for k in w}:
                vals = {w[k] for w, _ in ways if k in w}
                if len(vals) == 1:
                    self.known[k] = vals.pop()
                    if not all(k in w for w, _ in ways):
                        self.sometimes.add(k)
                else:
                    self.known.pop(k, None)
                    self.why = f"{n} sets {k} in different ways"

    def alternatives(self):
        """One object per way the construction can go."""
        for known, called in self.ways.get("__init__", ()):
            x = Fields.__new__(Fields)
            x.known = {**self.known, **known}
            x.why, x.sometimes, x.ways = None, set(), {}
            x.calls = called
            yield x

    def __call__(self, t, depth=0):
        if not isinstance(t, tuple) or depth > 8:
            return t
        u = unver(t)
        if u[0] == "attr" and u[1] == SELF and u[2] in self.known:
            return self(self.known[u[2]][0], depth + 1)
        return t


def roles(ctx, call, F):
    """Arguments of the construction of a repository class, by field of the new object:
    {field: term}, or None."""
    if not (call[0] == "call" and call[1][0] == "cls"):
        return None, None
    try:
        c = ctx.P.cls(call[1][1])
    except Exception:
        return None, None
    i = c.find("__init__")
    if i is None:
        return c, None
    names = [x for x in i.params()[0][1:]]
    vals = {}
    for n, a in zip(names, call[2]):
        vals[n] = F(a)
    for k, a in call[3]:
        vals[k] = F(a)
    ps = ctx.run(i, cls=c, exc="none")
    done = [p for p in ps if p.kind == "return"] if ps.paths is not None else []
    if len(done) != 1:
        return c, None
    out = {}
    for e in events(done[0]):
        if e.kind == "setattr" and e.recv == SELF:
            v = e.args["value"]
            if v[0] == "sym" and v[1] in vals:
                out[e.name] = vals[v[1]]
            else:
                out[e.name] = v
    return c, out


def is_buffer(t):
    return t[0] == "call" and t[1][0] == "ext" and t[1][1].split(".")[-1] == "StringIO"


@rule("C38", "redirect", "both streams and the log are duplicated into one record")
def c38_redirect(ctx):
    c = ctx.P.cls("OutputCapturer")
    F = Fields(ctx, c)
    en = c.find("__enter__")
    pe = ctx.run(en, cls=c, exc="none")
    several = F.why
    nbuf = sum(1 for e in F.calls if last(e) == "StringIO")
    seen = {}

    def one(k, v):
        v = F(v)
        if k == "handlers":
            if v[0] == "op" and v[1] == "+" and any(current(F(x), k) for x in v[2:]):
                return "log records are given twice to the original handlers"
            if v[0] != "list":
                return None
            xs = [x for x in v[1]]
            if not xs:
                return "log records are not captured"
            if len(xs) != 1 or xs[0][0] != "one":
                return "log records are given twice to the original handlers" if any(x[0] == "*" for x in xs) else None
            v = F(xs[0][1])
        cl, ro = roles(ctx, v, F)
        if cl is None or ro is None:
            if current(v, k):
                return f"{k} is not captured"
            if is_buffer(v):
                return f"{k} is not passed on to the original stream"
            return None
        buf = [n for n, t in ro.items() if is_buffer(F(t))]
        if not buf:
            return None if any(t[0] != "sym" and not current(t, k) for t in ro.values()) else f"{k} is not captured"
        org = [n for n, t in ro.items() if current(t, k)]
        oth = [n for n, t in ro.items() for j in ("stdout", "stderr") if j != k and current(t, j)]
        if not org:
            return f"{k} is passed on to the other stream" if oth else None
        seen[k] = (cl, buf[0], org[0])
        return True

    def ok(p):
        if p.kind != "return":
            return True
        fin = final(p)
        for k in ("stdout", "stderr", "handlers"):
            if k not in fin:
                return f"{k} is not captured"
            r = one(k, fin[k])
            if r is not True:
                return r
        if nbuf > 1:
            return "streams are recorded separately"
        return nbuf == 1 or None
    if several:
        bad = None
        for x in F.alternatives():
            F, nbuf = x, sum(1 for e in x.calls if last(e) == "StringIO")
            for p in (pe if pe.paths is not None else ()):
                r = ok(p) if not p.imprecise else True
                if isinstance(r, str):
                    bad = r
        ctx.check("OutputCapturer", False if bad else None, en.loc(), bad or several)
        return
    ctx.forall("OutputCapturer.__enter__", pe, ok, "stdout, stderr and root handlers are replaced by duplicating ones with one record", need=1)
    if len(seen) != 3:
        return
    for k in ("stdout", "stderr"):
        cl, buf, org = seen[k]
        w = cl.find("write")
        if w is None:
            ctx.check(f"{cl.name}.write", None, cl.loc(), "no write")
            continue
        ps = ctx.run(w, cls=cl, exc="none")
        data = sym(w.params()[0][1])

        def wr(p):
            if not any(consistent(p, lambda t: x if t == data else UNK) for x in ("a", "\n", " ", "0", "a\nb\n", "\r", "\x1b[0m", "a" * 9999)):
                return True                     # nothing is written
            if p.kind != "return":
                return "writing fails"
            got = {buf: 0, org: 0}
            for e in events(p):
                if e.kind == "call" and e.recv is not None and is_attr(unver(e.recv), buf, SELF) | is_attr(unver(e.recv), org, SELF):
                    if e.name not in (".write", "write"):
                        if e.name.lstrip(".") in ("flush", "tell", "getvalue", "isatty", "fileno", "readable", "writable"):
                            continue
                        return None
                    a = list(e.args.values())
                    if a[0] != data:
                        return "what is written is changed" if contains(a[0], data) or is_c(a[0]) else None
                    got[unver(e.recv)[2]] += 1
                elif e.kind == "loop":
                    return None
            for n, what in ((buf, "captured"), (org, "passed on to the original stream")):
                if got[n] == 0:
                    return f"some output is not {what}"
                if got[n] > 1:
                    return f"output is {what} twice"
            return True
        ctx.forall(f"{cl.name}.write ({k})", ps, wr, "written once to the record and to the original stream", need=1)

        def swallowed(p):
            if p.kind != "return":
                return True
            bad = [e for e in events(p) if failed(e) and e.kind == "call" and e.name.lstrip(".") == "write"]
            if bad and not any(e.kind == "call" and not failed(e) and e.recv is not None and is_attr(unver(e.recv), buf, SELF) and e.name.lstrip(".") == "write"
                               for e in events(p)):
                return "output that the original stream refuses is lost without an error"
            return True
        ctx.forall(f"{cl.name}.write ({k}): failing", ctx.run(w, cls=cl, exc="handlers"), swallowed, "what is not passed on is at least captured, or an error is raised")
    cl, buf, org = seen["handlers"]
    m = cl.find("emit") or cl.find("handle")
    ps = ctx.run(m, cls=cl, exc="none")
    REC = sym(m.params()[0][1])

    def em(p):
        if p.kind != "return":
            return "logging fails"
        n = 0
        for e in events(p, into_loops=False):
            if e.kind == "call" and e.recv is not None and is_attr(unver(e.recv), buf, SELF) and e.name.lstrip(".") == "write":
                a = list(e.args.values())[0]
                if not has_call(a, "format") or not contains(a, REC):
                    return "the log record is not captured as it is formatted" if not has_call(a, "getMessage") else "the exception of a log record is not captured"
                if not (a[0] == "cat" and is_c(a[1][-1]) and a[1][-1][2].endswith("\n")):
                    nxt = [x for x in events(p, into_loops=False) if x.kind == "call" and x is not e and list(x.args.values()) == [C("\n")]]
                    if not nxt:
                        return "log records run into one line" if a[0] in ("call", "cat") else None
                n += 1
        # a record written in several pieces
        if n == 0:
            return "log records are not captured"
        if n > 1:
            return "log records are captured twice"
        done = False
        for l in loops(p.events):
            s = l.x["iter"]
            if s is None or not contains(unver(s), ("attr", SELF, org)):
                continue
            chosen = strip_wrappers(unver(s))
            if chosen[0] == "list" and len(chosen[1]) == 1 and chosen[1][0][0] == "each" and chosen[1][0][1] == ("elem", chosen[1][0][2]) \
                    and chosen[1][0][2] == ("attr", SELF, org):
                s = chosen[1][0][2]             # those chosen before: the conditions stand in the iterations
            elif any(x is not l and x.x["iter"] is not None and strip_wrappers(unver(x.x["iter"]))[0] == "list"
                     and contains(unver(x.x["iter"]), ("attr", SELF, org)) for x in loops(p.events)) \
                    and not any(x.kind == "call" and last(x) in ("handle", "emit") for _, xs, _ in l.x["iters"] for x in xs):
                continue                        # the choosing itself
            if unver(strip_wrappers(s)) != ("attr", SELF, org):
                return "some handlers are left out" if s[0] == "item" or unver(strip_wrappers(s))[0] == "item" else None
            el = ("elem", strip_wrappers(unver(s)))
            done = True
            if any(k in ("break", "return") for k, _, _ in l.x["iters"]):
                return "some handlers are left out"
            for k, xs, gs in l.x["iters"]:
                if k != "next":
                    return "some handlers are left out" if k in ("break", "return") else None
                h = [x for x in xs if x.kind == "call" and x.recv is not None and unver(x.recv) == el and x.name.lstrip(".") in ("handle", "emit")]
                passed = None
                for g, b in gs:
                    u = unver(g)
                    vals = {}
                    for (rl, hl) in ((10, 30), (30, 30), (40, 30), (30, 0)):
                        def at(t, rl=rl, hl=hl):
                            if t == ("attr", REC, "levelno"):
                                return rl
                            if t == ("attr", el, "level"):
                                return hl
                            if t[0] == "attr" and t[2] == "level" or t[0] == "call" and fn_name(t) == "getEffectiveLevel":
                                return 50           # the level of something else
                            return UNK
                        vals[rl, hl] = teval(u, at)
                    if UNK in vals.values():
                        return None
                    vals = {q: bool(v) == b for q, v in vals.items()}
                    if vals == {(10, 30): False, (30, 30): True, (40, 30): True, (30, 0): True}:
                        passed = True
                    elif vals == {(10, 30): True, (30, 30): False, (40, 30): False, (30, 0): False}:
                        passed = False
                    else:
                        return "a handler gets records below its level, or not those of its level"
                if passed is None and not gs:
                    if h:
                        return "a handler gets records below its level"
                    return "log records are not passed on"
                if passed and len(h) != 1:
                    return "log records are not passed on" if not h else "log records are passed on twice"
                if passed is False and h:
                    return "a handler gets records below its level"
                for x in h:
                    if list(x.args.values())[:1] != [REC]:
                        return None
                    if x.name.lstrip(".") == "emit":
                        return "the filters of a handler are passed by"
        return done or "log records are not passed on"
    ctx.forall(f"{cl.name}.{m.name}", ps, em, "formatted once into the record, passed once to each original handler its level admits", need=1)
    i = cl.find("__init__")
    pi = ctx.run(i, cls=cl, exc="none")

    def lev(p):
        for e in events(p):
            if e.kind == "call" and last(e) in ("setLevel", "addFilter"):
                return "some log records are not captured"
            if e.kind == "call" and last(e) == "__init__":
                a = [x for x in e.args.values()]
                if a and not (is_c(a[-1]) and a[-1][2] == 0) and tstr(a[-1]) not in ("logging.NOTSET",):
                    if has_attr(a[-1], "x"):
                        return None
                    return "some log records are not captured"
        return True
    ctx.forall(f"{cl.name}: level", pi, lev, "no level of its own", need=1)
    g = c.find("get_output")
    pg = ctx.run(g, cls=c, exc="none")

    def out(p):
        if p.kind != "return":
            return "the output is not given"
        v = p.value
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "getvalue" and is_buffer(F(v[1][1])):
            return True
        if has_call(v, "getvalue"):
            return "the captured text is altered"
        if has_call(v, "read"):
            return "only a part of the captured text is given"
        return None
    ctx.forall("get_output", pg, out, "the whole text, unaltered", need=1)

    def keep(p):
        for e in events(p):
            if e.kind == "call" and e.name.lstrip(".") in ("truncate", "seek", "close") and e.recv is not None and is_buffer(F(unver(e.recv))):
                return "captured output is thrown away"
        return True
    for n in ("__enter__", "__exit__", "get_output"):
        ctx.forall(f"{n}: record", ctx.run(c.find(n), cls=c, exc="none"), keep, "the record is kept", need=1)


def restored_all(ctx, c, keys, F, label, how="all"):
    x = c.find("__exit__")
    ps = ctx.run(x, cls=c, exc=how)

    def ok(p):
        fin = final(p)
        for k in keys:
            if k not in fin:
                return f"{k} is not restored" + (" when something fails" if p.kind == "raise" else "")
            v = unver(fin[k])
            if k == "handlers" and v[0] == "list" and len(v[1]) == 1 and v[1][0][0] == "each" and v[1][0][3]:
                return "some handlers are lost"
            if v[0] == "attr" and v[1] == SELF and v[2] in F.sometimes:
                return f"what {k} was is not always remembered when the block begins"
            if v[0] == "attr" and v[1] == SELF and v[2] in F.known:
                t, early = F.known[v[2]]
                if current(F(t), k):
                    if not early:
                        return f"what {k} was is remembered only after it was replaced"
                    continue
                if any(current(F(t), j) for j in ("stdout", "stderr", "handlers") if j != k):
                    return f"{k} is replaced by another stream"
                return None if t[0] in ("sym", "mu") else f"{k} is not restored"
            if v in (("attr", SYS, "__" + k + "__"), ("ext", "sys.__" + k + "__")):
                return f"{k} becomes the one of the start of the process"
            if k == "handlers" and v[0] == "list" and not v[1]:
                return "handlers are lost"
            if k == "handlers" and v[0] == "list" and all(x[0] == "one" for x in v[1]):
                return "the handlers are replaced by others"
            return None
        return True
    ctx.forall(label, ps, ok, "on every way out everything is what it was before", need=1)

    def kept(p):
        back = set()
        for e in events(p):
            if target(e):
                back.add(target(e))
            if e.kind == "call" and e.recv is not None and e.name.lstrip(".") in ("close", "detach", "truncate"):
                for k in ("stdout", "stderr"):
                    if k in back and current(unver(e.recv), k) or not current(unver(e.recv), k) and current(F(unver(e.recv)), k):
                        return f"{k} is restored, but closed"
        return True
    ctx.forall(label + ": usable", ps, kept, "the original streams stay open", need=1)
    return ps


@rule("C38", "restore", "capturing ends as it began")
def c38_restore(ctx):
    c = ctx.P.cls("OutputCapturer")
    F = Fields(ctx, c)
    ps = restored_all(ctx, c, ("stdout", "stderr", "handlers"), F, "OutputCapturer.__exit__")
    f = c.find("__exit__")
    names = f.params()[0][1:]

    def tb(p):
        failed_ = None
        for g, b, _ in p.guards:
            u = unver(g)
            if u[0] == "isnone" and u[1] in [sym(n) for n in names]:
                failed_ = not b
            elif u[0] == "truthy" and u[1] in [sym(n) for n in names]:
                failed_ = b
            elif u[0] in ("isinstance", "eq", "is", "call", "in") and any(contains(u, sym(n)) for n in names):
                return "tracebacks of some exceptions are not printed"
        evs = events(p)
        pr = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and last(e) in ("print_exc", "print_exception", "format_exc", "format_exception", "print_tb")]
        if failed_ is False:
            return True
        if not pr:
            return "the traceback of an exception is not captured" if failed_ else None
        i, e = pr[0]
        if last(e) == "print_tb":
            return "the exception is not captured"
        if last(e).startswith("format"):
            return None
        if any(target(x) for x in evs[:i]):
            return "the traceback is printed after capturing ended"
        for k, v in e.args.items():
            if k == "limit" and v != NONE:
                return "the traceback is cut off"
            if k == "chain" and v == C(False):
                return "the cause of the exception is not captured"
            if k == "file" and v != NONE and unver(v) != ("attr", SYS, "stderr"):
                t = F(v)
                return True if t[0] == "call" and t[1][0] == "cls" else "the traceback is not both printed and captured"
        if last(e) == "print_exc" and e.args.get("0") not in (None, NONE):
            return "the traceback is cut off"
        return True
    ctx.forall("OutputCapturer.__exit__: traceback", ps, tb, "the traceback goes into the record before capturing ends", need=2)


@rule("C39", "suppress", "nothing is printed while output is suppressed")
def c39(ctx):
    c = ctx.P.cls("OutputSuppressor")
    F = Fields(ctx, c)
    en = c.find("__enter__")
    pe = ctx.run(en, cls=c, exc="none")

    def null(t):
        t = F(t)
        if t[0] == "call" and t[1] == ("ext", "open"):
            a = list(t[2]) + [v for k, v in t[3] if k == "file"]
            mode = t[2][1] if len(t[2]) > 1 else dict(t[3]).get("mode", C("r"))
            if not (a and (tstr(a[0]).endswith("devnull") or a[0] == C("/dev/null"))):
                return "output goes into a file"
            if not is_c(mode):
                return None
            return bool(set("wa") & set(mode[2])) and "b" not in mode[2] or "writing to the null device fails"
        if is_c(t):
            return "writing fails while output is suppressed" if t[2] is not None else True
        return None

    def ok(p):
        if p.kind != "return":
            return True
        fin = final(p)
        for k in ("stdout", "stderr"):
            if k not in fin:
                return f"{k} is not suppressed"
            if any(current(F(fin[k]), j) for j in ("stdout", "stderr")):
                return f"{k} is not suppressed"
            r = null(fin[k])
            if r is not True:
                return r
        return True
    ctx.forall("OutputSuppressor.__enter__", pe, ok, "both streams go to the null device", need=1)
    if F.why:
        ctx.check("OutputSuppressor", None, en.loc(), F.why)
        return
    restored_all(ctx, c, ("stdout", "stderr"), F, "OutputSuppressor.__exit__")
    pa = ctx.run(en, cls=c, exc="all")

    def undone(p):
        if p.kind != "raise":
            return True
        return not final(p) or "a failed start leaves streams replaced"
    ctx.forall("OutputSuppressor.__enter__: failure", pa, undone, "a failed start changes nothing")
    # what the streams were is remembered when the block is entered, not earlier
    i = c.find("__init__")
    if i is not None:
        pi = ctx.run(i, cls=c, exc="none")

        def late(p):
            for e in events(p):
                if e.kind == "setattr" and e.recv == SELF and any(current(e.args["value"], k) for k in ("stdout", "stderr")):
                    return "the streams are those of the construction, not of the beginning of the block"
            return True
        ctx.forall("OutputSuppressor.__init__", pi, late, "the streams are remembered when the block begins", need=1)
