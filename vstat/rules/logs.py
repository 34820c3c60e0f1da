"""Exception and event logging, the first-entry dictionary (C10, C16-C18)."""
from .base import *
from .portals import portal_classes
import ast

EXIT = "LoggingPortal.__exit__"


def suppress_atom(exc, tname):
    """Valuation of the questions the code may ask about an exception.

    val: {"exc": bool, "notes": None | [..], "attrs": {..}}"""
    def atom(t, v):
        if t == ("isnone", sym(tname)) or t == ("isnone", sym(exc)):
            return not v["exc"]
        if t in (sym(tname), sym(exc)):
            return "EXC" if v["exc"] else None
        if t[0] == "hasattr" and t[1] == sym(exc):
            if t[2] == "__notes__":
                return v.get("notes") is not None
            if t[2] == "add_note":
                return v.get("can_note", True)
            return t[2] in v.get("attrs", ())
        if t[0] == "in" and t[2] == ("attr", sym(exc), "__notes__"):
            return v.get("notes") is not None and is_c(t[1]) and t[1][2] in v["notes"]
        if t == ("attr", sym(exc), "__notes__"):
            return v["notes"] if v.get("notes") is not None else UNK
        if t[0] == "attr" and t[1] == sym(exc):
            return v.get("attrs", {}).get(t[2], UNK)
        if t[0] == "call" and t[1] == ("ext", "getattr") and t[2][0] == sym(exc) and is_c(t[2][1]):
            n = t[2][1][2]
            d = t[2][2] if len(t[2]) > 2 else None
            if n == "__notes__":
                if v.get("notes") is not None:
                    return v["notes"]
            elif n in v.get("attrs", {}):
                return v["attrs"][n]
            return d[2] if d is not None and is_c(d) else UNK
        return UNK
    return atom


def crash_writes(p):
    return [e for e in events(p) if e.kind == "setitem" and is_attr(e.recv, "crash_history")]


def exc_params(f):
    """names of (type, value, traceback) of an __exit__/hook"""
    ps = [x for x in f.params()[0] if x not in ("self", "_")]
    return ps[:3] if len(ps) >= 3 else None


def log_rules(ctx, f, cls, label):
    ex = exc_params(f)
    ps = ctx.run(f, cls=cls, exc="none")
    if ex is None:
        ctx.check(label, None, f.loc(), "unrecognised parameters")
        return
    et, ev, tb = ex
    atom = suppress_atom(ev, et)

    def silent(p, exp):
        w = crash_writes(p)
        return (not w and p.kind == "return") or (
            "writes to the crash history" if w else "raises")

    def recorded(p, exp):
        if p.kind != "return":
            return "an exception is not recorded but an error raised"
        w = crash_writes(p)
        if not w:
            return "an exception is not written to the crash history"
        r = each_iter(p.events, lambda t: entered_src(t) is True,
                      lambda e: e.kind == "setitem" and is_attr(e.recv, "crash_history")
                      and elem_src(e.recv[1]) is not None)
        if r is not True:
            bad = [e for e in w if e.recv[1] == sym("self")]
            for e in w:
                s = elem_src(e.recv[1])
                if s is not None and entered_src(s) is False:
                    return f"the exception is written only to {tstr(s)}"
            for l in loops(p.events):
                if l.x["iter"] is not None and entered_src(l.x["iter"]) is False:
                    return f"the exception is written only to {tstr(l.x['iter'])}"
            if bad:
                return "the exception is written only to the portal being left"
            return "the exception is not written to every entered portal" if r is False else None
        for e in w:
            k = seq_items(e.args["key"])
            if k is None:
                return None
            if k[0] != C("__CATCH_ALL__"):
                return None if not is_c(k[0]) else "the exception is not filed under __CATCH_ALL__"
            if len(k) < 3 or fn_name(k[1]) != "current_date_gmt_string":
                return "the exception is not filed under the current UTC date"
            if not has_call(k[-1], "get_random_signature"):
                return "the id of the logged exception is not randomised"
            if any(x[0] == "item" and x[2][0] == "slice" and fn_name(x[1]) == "get_random_signature" and is_c(x[2][2])
                   and isinstance(x[2][2][2], int) and x[2][2][2] < 8 for x in terms(k[-1])):
                return "the ids of two exceptions may be the same"
            kinds = (("typeof", sym(ev)), sym(et), ("attr", sym(ev), "__class__"))
            if not any(contains(k[-1], ("attr", x, n)) for x in kinds for n in ("__name__", "__qualname__")):
                return "the id does not name the class of the exception" if k[-1][0] in ("cat", "call", "c") and not any(
                    is_attr(x, n) for x in subterms(k[-1]) if isinstance(x, tuple)
                    for n in ("__name__", "__qualname__")) or any(
                    x in (("attr", y, "__mro__") for y in kinds) or x in (("attr", y, "__base__") for y in kinds)
                    for x in subterms(k[-1]) if isinstance(x, tuple)) else None
            d = dict_parts(e.args["value"])
            if d is None:
                return None
            if d[0].get("exception") != sym(ev):
                return "the record does not contain the exception that escapes"
            if not any(contains(v, sym(tb)) for v in d[0].values()):
                return "the record does not contain the traceback of the exception"
            for v in d[0].values():
                if not contains(v, sym(tb)):
                    continue
                for x in subterms(v):
                    if not isinstance(x, tuple) or not x:
                        continue
                    if x[0] == "call" and any(n == "limit" and y != NONE for n, y in x[3]):
                        return "only a part of the traceback is recorded"
                    if x[0] == "item" and contains(x[1], sym(tb)) and isinstance(x[2], tuple) and x[2][0] in ("slice", "c"):
                        return "only a part of the traceback is recorded"
            if not any(has_call(m, "build_execution_environment_summary") for m in d[1]) and \
                    not any(has_call(v, "build_execution_environment_summary") for v in d[0].values()):
                return "the record lacks the execution environment"
        return True
    none = dict(exc=False)
    rows_s = [("no exception", none, None)]
    rows_w = [("new exception without notes", dict(exc=True, notes=None), None),
              ("new exception with other notes", dict(exc=True, notes=["seen by the user"]), None),
              ("new exception with notes about suppressing", dict(exc=True, notes=[
                  "suppress", "__suppress", "logging", "the user asked to suppress_logging of this"]), None),
              ("new exception that has no add_note", dict(exc=True, notes=None, can_note=False), None)]
    ctx.table(f"{label} silent", ps, rows_s, atom, silent, "nothing is recorded")
    ctx.table(f"{label} recorded", ps, rows_w, atom, recorded,
              "the exception is recorded in every entered portal")
    # marking: what the recording path leaves on the exception must silence the next one
    marks = []

    def marked(p, exp):
        notes, attrs = [], {}
        for e in events(p):
            if e.kind == "call" and last(e) == "add_note" and e.recv == sym(ev) and is_c(e.args.get("0", NONE)):
                notes.append(e.args["0"][2])
            if e.kind == "setattr" and e.recv == sym(ev) and e.name != "__notes__":
                v = e.args["value"]
                attrs[e.name] = v[2] if is_c(v) else UNK
            if e.kind == "call" and last(e) == "append" and e.recv == ("attr", sym(ev), "__notes__"):
                notes.append(e.args["0"][2] if is_c(e.args.get("0", NONE)) else None)
        if not notes and not attrs:
            return "a recorded exception is not marked: an enclosing portal records it again"
        st = dict(exc=True, notes=(exp.get("notes") or []) + notes if (notes or exp.get("notes")) else None,
                  attrs=attrs, can_note=exp.get("can_note", True))
        if st not in marks:
            marks.append(st)
        return True
    ctx.table(f"{label} marks", ps, [(l, v, v) for l, v, _ in rows_w], atom, marked,
              "a recorded exception is marked as recorded")
    for i, st in enumerate(marks):
        ctx.table(f"{label} once", ps, [(f"already recorded ({sorted(st['attrs']) or st['notes'][-1:]})", st, None)],
                  atom, silent, "an exception already recorded is not recorded again")
        if st["notes"]:
            ctx.table(f"{label} once", ps, [("already recorded, then given another note", dict(st, notes=st["notes"] + ["a later note"]), None)],
                      atom, silent, "an exception already recorded is not recorded again")


@rule("C16", "portal-exit", "an exception escaping from a portal is recorded once in every entered portal")
def c16(ctx):
    seen = set()
    for c in portal_classes(ctx):
        if not any(getattr(k, "name", "") == "LoggingPortal" for k in c.mro):
            continue
        f = c.find("__exit__")
        if f is None or f.fq in seen:
            continue
        seen.add(f.fq)
        log_rules(ctx, f, c, f.qual)
    f = ctx.P.func(EXIT)
    # recorded before the portal is left
    ps = ctx.run(f, cls="LoggingPortal", exc="none")

    def order(p):
        out = False
        for e in p.events:
            if e.kind in ("with_exit", "call") and e.name == "BasicPortal.__exit__":
                out = True
            if out and e.kind == "loop" and any(x.kind == "setitem" and is_attr(x.recv, "crash_history")
                                                for x in flat_events([e])):
                return "the exception is recorded after the portal was left, so not in that portal"
        return True
    ctx.forall("recorded before leaving", ps, order, "recorded while the portal is still entered",
               sel=lambda p: bool(crash_writes(p)), need=1)


@rule("C16", "enter", "a recorded mark is the only reason not to record")
def c16_dir(ctx):
    for c in portal_classes(ctx):
        i = c.methods.get("__init__")
        if i is None or c.name != "LoggingPortal":
            continue
        ps = ctx.run(i, cls=c, exc="none", opaque=("BasicPortal.__init__",))
        for a in ("crash_history", "event_log"):
            ctx.forall(f"LoggingPortal.{a}", ps, lambda p, a=a: p.kind != "return" or any(
                e.kind == "setattr" and e.name == a and e.recv == SELF and
                any(is_c(x) and x[2] == a for x in subterms(e.args["value"]) if isinstance(x, tuple) and x)
                for e in events(p)) or None, f"{a} has its own subdirectory", need=1)


# ------------------------------------------------------------------ hooks
@rule("C17", "uncaught", "uncaught exceptions are recorded and still reported")
def c17(ctx):
    for n, dele in (("pth_excepthook", ("__excepthook__", "excepthook", "_previous_excepthook")),
                    ("pth_excepthandler", ("print_exception", "print_exc", "showtraceback"))):
        f = ctx.P.func(n)
        log_rules(ctx, f, None, n)
        ex = exc_params(f)
        ps = ctx.run(f, exc="none")

        def reports(p):
            if p.kind != "return":
                return f"{n} raises"
            for e in events(p):
                if e.kind == "call" and (last(e) in dele or any(x in tstr(e.recv or NONE) for x in dele)
                                         or any(x in e.name for x in dele)):
                    vals = list(e.args.values())
                    if any(v[0] in ("attr", "item") and contains(v, sym(ex[2])) for v in vals):
                        return "only a part of the traceback is reported"
                    if sym(ex[1]) in vals:
                        return True
                    return "the exception reported is not the uncaught one"
            return f"{n} does not report the exception"
        ctx.forall(f"{n} reports", ps, reports, "the uncaught exception is reported to the user", need=1)


@rule("C17", "own-exception", "every logging call site passes the exception that is escaping")
def c17_sites(ctx):
    P = ctx.P
    g = P.func("LoggingPortal._exception_logger")
    n = 0
    sites = set()
    for f in P.all_functions():
        if any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)) and
                   (x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id) == g.name
                   for x in ast.walk(f.node)):
            sites |= homes(ctx, f)
    for f in sorted(sites, key=lambda f: f.fq):
        if f.name != "__exit__" and f.name not in ("pth_excepthook", "pth_excepthandler"):
            continue
        ps = ctx.run(f, cls=f.cls, exc="none", opaque=(g.qual,))
        ex = exc_params(f)
        n += 1

        def passes(p):
            for e in calls(p, g.name):
                v = e.args.get(g.params()[0][0]) if g.params()[0] else e.args.get("0")
                if v is None or v == NONE:
                    return (f"{f.qual} does not say which exception to log: the one being "
                            "handled is not necessarily the one escaping")
                it = seq_items(v)
                if it is None:
                    return "the exception logged is not the one escaping" if has_call(v, "exc_info") else None
                if [x for x in it] != [sym(x) for x in ex]:
                    return "the exception logged is not the one escaping"
            return True
        ctx.forall(f"{f.qual} passes its exception", ps, passes, "logs the escaping exception", need=1)
    ctx.check("logging call sites", True if n else None, g.loc(), f"{n} call sites", n)


@rule("C17", "hook", "the system hook is installed once and given back")
def c17_hook(ctx):
    P = ctx.P
    reg = P.func("register_systemwide_uncaught_exception_handlers")
    unr = P.func("unregister_systemwide_uncaught_exception_handlers")
    HOOK = ("attr", ("mod", "sys"), "excepthook")

    def is_hook(e):
        return e.kind == "setattr" and e.name == "excepthook"
    ps = ctx.run(reg, exc="handlers")
    saved = set()

    def installs(p):
        if p.kind != "return":
            return None
        hooks = [i for i, e in enumerate(p.events) if is_hook(e)]
        notebook = [e for e in events(p) if last(e) == "set_custom_exc" and not failed(e)]
        if not hooks:
            return bool(notebook) or "no handler for uncaught exceptions is installed"
        h = p.events[hooks[-1]]
        if fn_target(h.args["value"]) != "pth_excepthook":
            return f"{tstr(h.args['value'])} is installed as the hook"
        for i, e in enumerate(p.events):
            if e.kind in ("setglobal", "setattr") and not is_hook(e) and \
                    e.args["value"][0] == "attr" and e.args["value"][2] == "excepthook":
                saved.add(e.name)
                return i < hooks[-1] or "the previous hook is saved after it was replaced"
            if e.kind in ("setglobal", "setattr") and not is_hook(e) and fn_target(e.args["value"]) == "pth_excepthook":
                saved.add(e.name)
                return "the previous hook is saved after it was replaced"
        return "the previous hook is not remembered"
    ctx.forall("register", ps, installs, "installs the hook and remembers the previous one", need=1)

    def custom(p, handler):
        """set_custom_exc is called for every exception with this handler"""
        for e in events(p):
            if last(e) == "set_custom_exc" and not failed(e):
                v = list(e.args.values())
                if len(v) != 2:
                    return "the handler of the notebook is not replaced (wrong arguments)"
                t = seq_items(v[0])
                if t is not None and t != [("ext", "BaseException")] and not any(tstr(x) == "BaseException" for x in t):
                    return "the handler of the notebook is not responsible for every exception"
                got = fn_target(v[1]) if v[1] != NONE else None
                return got == handler or "another handler is given to the notebook"
        return None

    def notebook(p):
        if p.kind != "return" or not any(has_call(g, "is_executed_in_notebook") and b for g, b, _ in p.guards):
            return True
        if any(e.kind == "except" for e in events(p)):
            return True
        return custom(p, "pth_excepthandler") or "in a notebook no handler for uncaught exceptions is installed"
    ctx.forall("register in notebooks", ps, notebook, "the handler of the notebook is installed", need=1)
    ctx.exists("register in notebooks: possible", ps, lambda p: custom(p, "pth_excepthandler") is True,
               "the handler of the notebook is installed")

    def outside(p):
        return not [e for e in events(p) if last(e) == "set_custom_exc"]
    ctx.exists("register outside notebooks", ps, lambda p: any(is_hook(e) for e in events(p)) and outside(p),
               "the hook is installed outside notebooks")
    ps = ctx.run(unr, exc="none")
    ctx.forall("unregister in notebooks", ps, lambda p: p.kind != "return" or not any(
        has_call(g, "is_executed_in_notebook") and b for g, b, _ in p.guards) or custom(p, None) or "in a notebook the handler stays installed",
        "the handler of the notebook is taken out")
    ctx.exists("unregister in notebooks: possible", ps, lambda p: custom(p, None) is True,
               "the handler of the notebook is taken out")
    if saved:
        nm = sorted(saved)[0]

        def atom(t, v):
            if t[0] in ("isnone", "truthy") and nm in tstr(t[1]) and not is_hooky(t[1]):
                return (not v["s"]) if t[0] == "isnone" else v["s"]
            return UNK

        def restores(p, exp):
            hs = [e for e in events(p) if is_hook(e)]
            if exp:
                if not hs:
                    return "the previous hook is not restored"
                v = hs[-1].args["value"]
                if nm in tstr(v):
                    w = [e for e in events(p) if e.kind in ("setglobal", "setattr") and e.name == nm]
                    for i, e in enumerate(p.events):
                        if e.kind in ("setglobal", "setattr") and e.name == nm and i < p.events.index(hs[-1]):
                            return None
                    return True
                return f"the hook is set to {tstr(v)}, not to the previous one"
            return not hs or (None if "__excepthook__" in tstr(hs[-1].args["value"])
                              else "the hook is overwritten although none was remembered")
        ctx.table("unregister", ps, [("a previous hook is known", dict(s=True), True),
                                     ("no previous hook", dict(s=False), False)], atom, restores,
                  "the previous hook is restored")
    # once per process
    i = P.func("LoggingPortal.__init__")
    flag = ("attr", ("cls", "LoggingPortal"), "exception_handlers_registered")
    ps = ctx.run(i, cls="LoggingPortal", exc="none", opaque=("BasicPortal.__init__",))

    def atomf(t, v):
        return v["f"] if t == flag else UNK

    def whose(p):
        for t in [x for g, _, _ in p.guards for x in terms(unver(g))]:
            if t[0] == "attr" and t[2] == flag[2] and t[1] != flag[1]:
                return "whether the hook is installed is remembered separately for every class of portals"
        for e in events(p):
            if e.kind == "setattr" and e.name == flag[2] and e.recv != flag[1]:
                return "whether the hook is installed is remembered separately for every class of portals"
        return True
    low = next((c.name for c in sorted(P.subclasses(P.cls("LoggingPortal")), key=lambda c: (-len(c.mro), c.name))
                if c.name != "LoggingPortal"), None)
    ctx.forall("installed once for all classes", ctx.run(i, cls=low, exc="none", opaque=("BasicPortal.__init__",)), whose,
               "one flag for all classes of portals", need=1)

    def once(p, exp):
        c = calls(p, "register_systemwide_uncaught_exception_handlers")
        if exp and not c:
            return "the first portal does not install the hook"
        if not exp and c:
            return "the hook is installed again although it already is (the original hook is lost)"
        w = [e for e in events(p) if e.kind == "setattr" and e.name == flag[2] and e.recv == flag[1]]
        if exp and (not w or w[-1].args["value"] != TRUE):
            return "it is not remembered that the hook is installed"
        if not exp and w and w[-1].args["value"] != TRUE:
            return "it is forgotten that the hook is installed"
        return True
    ctx.table("installed once", ps, [("first portal", dict(f=False), True),
                                     ("later portal", dict(f=True), False)], atomf, once, "hook installed once")
    cl = P.func("LoggingPortal._clear_all")
    ps = ctx.run(cl, cls="LoggingPortal", exc="none", opaque=("BasicPortal._clear_all",))

    def off(p, exp):
        c = calls(p, "unregister_systemwide_uncaught_exception_handlers")
        if exp and not c:
            return "a global reset leaves the hook installed"
        w = [e for e in events(p) if e.kind == "setattr" and e.name == flag[2]]
        if exp and (not w or w[-1].args["value"] != FALSE):
            return "after a global reset the hook is never installed again"
        return True
    ctx.table("reset", ps, [("hook installed", dict(f=True), True)], atomf, off, "a global reset removes the hook")


def all_of(t, xs):
    """t holds all the elements of xs"""
    if t == xs:
        return True
    u = strip_wrappers(t)
    if u == xs:
        return True
    if u[0] == "call" and fn_name(u) in ("list", "tuple") and len(u[2]) == 1:
        return all_of(u[2][0], xs)
    if u[0] in ("list", "tuple"):
        return any(x[:1] == ("*",) and x[1] == xs or x[:1] == ("each",) and x[2] == xs and not x[3]
                   and x[1][:1] == ("elem",) for x in u[1])
    return False


def is_hooky(t):
    return t[0] == "attr" and t[2] == "excepthook"


def fn_target(t):
    if t[0] == "fn":
        return t[1].split(":")[-1]
    if t[0] in ("sym", "global"):
        return t[1]
    return None


# ------------------------------------------------------------------ events
@rule("C18", "to-all", "an event is written to every entered portal under the UTC date and its id")
def c18(ctx):
    f = ctx.P.func("LoggingPortal.log_event")
    ps = ctx.run(f, exc="none", opaque=("LoggingPortal.make_unique_name",),
                 inline=("add_execution_environment_summary",))

    def atom(t, v):
        return (v["id"] or None) if t == sym("event_id") else UNK

    def out(p, exp):
        if p.kind != "return":
            return "raises"
        w = [e for e in events(p) if e.kind == "setitem" and is_attr(e.recv, "event_log")]
        if not w:
            return "the event is not written"
        r = each_iter(p.events, lambda t: entered_src(t) is True,
                      lambda e: e.kind == "setitem" and is_attr(e.recv, "event_log")
                      and elem_src(e.recv[1]) is not None)
        if r is not True:
            for l in loops(p.events):
                if l.x["iter"] is not None and entered_src(l.x["iter"]) is False:
                    return f"the event is written only to {tstr(l.x['iter'])}"
            for e in w:
                s = elem_src(e.recv[1])
                if s is None and entered_src(e.recv[1]) is False or e.recv[1] == SELF:
                    return "the event is written to one portal only"
            return "the event is not written to every entered portal" if r is False else None
        for e in w:
            k = seq_items(e.args["key"])
            if k is None:
                return None
            if fn_name(k[0]) != "current_date_gmt_string" or len(k) < 2:
                return "the event is not filed under the current UTC date"
            if exp == "given" and k[1] != sym("event_id"):
                return "the event is not filed under the given id"
            if exp == "random" and fn_name(k[1]) != "get_random_signature":
                return "an event without id does not get a random one"
            v = e.args["value"]
            if not (v == sym("kwargs") or contains(v, sym("kwargs"))):
                return "what the caller passed is not written"
        return True
    ctx.table("LoggingPortal.log_event", ps, [
        ("with id", dict(id="ID"), "given"), ("with a long id", dict(id="Long id " * 50), "given"), ("without id", dict(id=0), "random")],
              atom, out, "event written to all entered portals")

    def messages(p):
        if p.kind != "return":
            return True
        for e in flat_events(p.events):
            if e.kind == "setitem" and is_attr(e.recv, "event_log"):
                v = e.args["value"]
                if contains(v, sym("args")) or any(
                        x.kind == "setitem" and x.recv == v and contains(x.args["value"], sym("args"))
                        for x in flat_events(p.events)):
                    return True
                return "positional messages are lost"
        return True

    def some(t):
        return ("x",) if t == sym("args") else UNK
    ctx.forall("LoggingPortal.log_event messages", ps, messages, "positional messages are written",
               paths=[p for p in ps.paths or () if consistent(p, some)], need=1)

    def honest(p):
        if p.kind != "return":
            return True
        return not any(failed(e) and e.kind == "setitem" and is_attr(e.recv, "event_log")
                       for e in flat_events(p.events)) or "the caller is not told that the event was not written"
    ctx.forall("LoggingPortal.log_event failures", ctx.run(f, exc="handlers"), honest, "a failing write is not hidden", need=1)
    g = ctx.P.func("log_event")
    ps = ctx.run(g, exc="none", opaque=("LoggingPortal.log_event",))

    def atom2(t, v):
        if t[0] == "in" and t[1] == C("event_id") and t[2] == sym("kwargs"):
            return v["id"]
        return UNK

    def out2(p, exp):
        c = calls(p, "log_event")
        if p.kind != "return" or len(c) != 1:
            return "does not log exactly one event" if p.kind == "return" else "raises"
        a = c[0].args
        if a.get("args") != sym("args"):
            return "positional messages are not passed on"
        if not contains(a.get("kwargs", NONE), sym("kwargs")):
            return "keyword arguments are not passed on"
        for x in terms(a["kwargs"]):
            if x[0] == "kveach" and len(x) > 4 and contains(x[3], sym("kwargs")):
                for k in ("x", "_private", "a rather long name of an item", "message_list"):
                    for g_, b in x[4]:
                        v = teval(g_, lambda t: k if t == x[1] else UNK)
                        if v is not UNK and bool(v) != b:
                            return "some keyword arguments are not passed on"
        ei = a.get("event_id")
        if exp:
            ok = ei is not None and any(is_c(x) and x[2] == "event_id" for x in subterms(ei) if isinstance(x, tuple) and x)
            return ok or "the event id is not passed on"
        return ei in (None, NONE) or (None if contains(ei, sym("kwargs")) else "an id is invented")
    ctx.table("log_event", ps, [("with id", dict(id=True), True), ("without id", dict(id=False), False)],
              atom2, out2, "passes everything on")


@rule("C18", "keep-data", "adding the environment never overwrites what the caller passed")
def c18_keep(ctx):
    f = ctx.P.func("LoggingPortal.add_execution_environment_summary")
    ps = ctx.run(f, exc="none", opaque=("LoggingPortal.make_unique_name",))

    def atom(t, v):
        return (("x",) if v["a"] else ()) if t == sym("args") else UNK

    def out(p, exp):
        if p.kind != "return":
            return "raises"
        env = msg = False
        absent = [g[0] for g in p.guards if not g[1] and g[0][0] == "in"]
        ws = [(e.args["key"], e.args["value"]) for e in events(p)
              if e.kind == "setitem" and e.recv == sym("kwargs")]
        v = p.value
        if v != sym("kwargs"):
            if v[0] != "dict":
                return None
            # a new dictionary: the caller's entries must come in, and win or not collide
            for x in v[1]:
                if x[0] == "kv":
                    ws.append((x[1], x[2]))
            if not contains(v, sym("kwargs")):
                return "what the caller passed is lost"
        for e in events(p):
            if e.kind in ("delitem",) and e.recv == sym("kwargs") or (
                    e.kind == "call" and e.recv == sym("kwargs") and last(e) in ("pop", "clear", "popitem")):
                return "entries of the caller are removed"
        for k, x in ws:
            if fn_name(k) == "make_unique_name":
                en = call_arg(k, "existing_names", 1)
                if en is None or not contains(en, sym("kwargs")):
                    return "the added name is not unique among the caller's names"
            elif is_c(k):
                if not any(a[1] == k and contains(a[2], sym("kwargs")) for a in absent):
                    return f"an entry of the caller named {k[2]!r} is overwritten"
            elif not any(a[1] == k for a in absent):
                return None
            if has_call(x, "build_execution_environment_summary"):
                env = True
            if all_of(x, sym("args")):
                msg = True
        if not env:
            return "the execution environment is not added"
        if exp and not msg:
            return "positional messages are lost"
        return True
    ctx.table("add_execution_environment_summary", ps, [("with messages", dict(a=1), True),
                                                        ("without messages", dict(a=0), False)],
              atom, out, "keeps the caller's data")
    g = ctx.P.func("LoggingPortal.make_unique_name")
    ps = ctx.run(g, exc="none")

    def unique(p):
        if p.kind != "return":
            return True
        for c, b, _ in p.guards:
            if c[0] == "in" and c[1] == p.value and c[2] == sym("existing_names"):
                return (not b) or "returns a name that already exists"
        if p.value == sym("desired_name"):
            return "returns the desired name without checking that it is new"
        for c, b, _ in p.guards:
            if c[0] == "in" and c[1] == p.value and contains(c[2], sym("existing_names")):
                u = strip_wrappers(c[2])
                if u[0] == "call" and fn_name(u) in ("keys", "set", "list", "tuple", "frozenset", "sorted", "dict"):
                    u = u[1][1] if fn_name(u) == "keys" and u[1][0] == "attr" else u[2][0] if u[2] else u
                if u == sym("existing_names"):
                    return (not b) or "returns a name that already exists"
                return "the name is compared with a part of the existing names" if u[0] == "item" else None
        if p.value[0] == "item" and p.value[2][0] == "slice":
            return "returns a name that was not compared with the existing ones"
        if not any(x[0] == "mu" for x in subterms(p.value) if isinstance(x, tuple) and x) and p.value[0] in ("cat", "op", "call"):
            return "returns a name that was not compared with the existing ones"
        return None
    ctx.forall("make_unique_name", ps, unique, "the name returned is not among the existing ones", need=1)


# ------------------------------------------------------------------ first entry
@rule("C10", "first-entry", "a key keeps the first value written to it")
def c10(ctx):
    P = ctx.P
    c = P.cls("FirstEntryDict")
    init = c.methods["__init__"]
    ips = ctx.run(init, cls=c, exc="none")
    W = PC = None
    wp, pp = init.params()[0][1], (init.params()[0] + list(init.params()[1]))[2]
    for p in ips.returns():
        for e in events(p):
            if e.kind == "setattr" and e.recv == SELF:
                if e.args["value"] == sym(wp):
                    W = ("attr", SELF, e.name)
                if e.args["value"] == sym(pp):
                    PC = ("attr", SELF, e.name)
    if W is None or PC is None:
        ctx.check("FirstEntryDict.__init__", None, init.loc(), "wrapped dictionary not found")
        return

    def immut(p):
        if p.kind != "return":
            return True
        for g, b, _ in p.guards:
            if is_attr(g, "immutable_items") or (g[0] in ("eq", "truthy", "is") and has_attr(g, "immutable_items")):
                return b or "accepts a mutable dictionary"
        return "a mutable dictionary is accepted"
    ctx.forall("wraps immutable", ips, immut, "the wrapped dictionary must be immutable", need=1)

    f = c.methods["__setitem__"]
    _, kn, vn = f.params()[0][:3]
    K, V = sym(kn), sym(vn)
    ps = ctx.run(f, cls=c, exc="handlers")

    def is_in(g):
        return g[0] == "in" and g[1] == K and g[2] in (W, SELF)

    def is_wr(e):
        return (e.kind == "setitem" and e.recv == W) or (
            e.kind == "call" and e.recv == W and last(e) in (
                "__setitem__", "update", "setdefault", "set", "pop", "clear", "__delitem__", "discard"))             or (e.kind == "delitem" and e.recv == W)

    def writes_ok(p):
        state = None           # known membership
        for k, a, b in timeline(p):
            if k == "g" and is_in(a):
                state = b
            elif k == "e":
                for x in flat_events([a]):
                    if is_wr(x):
                        if x.kind == "delitem" or last(x) in ("pop", "clear", "__delitem__", "discard"):
                            return "the stored value can be removed"
                        if state is not False:
                            return "writes to a key that may already have a value"
                        if x.kind == "setitem" and (x.args["key"] != K or x.args["value"] != V):
                            return "writes something else than the given value under the given key"
                        state = None      # anything may have happened since
        return True
    ctx.forall("never overwritten", ps, writes_ok, "only a missing key is written", need=2)

    def present(p):
        if p.kind != "return":
            return True
        st = None
        for k, a, b in timeline(p):
            if k == "g" and is_in(a):
                st = b
            if k == "e" and is_wr(a):
                st = None
        return st is True or "returns without having seen a value under the key"
    ctx.forall("stored", ps, present, "on return the key has been seen to have a value", need=2)

    def retried(p):
        bad = st = False
        for k, a, b in timeline(p):
            if k == "e" and is_wr(a):
                bad = failed(a)
                st = None
            elif k == "g" and is_in(a):
                st = b
        return not bad or st is True or "a write that failed is not tried again"
    ctx.forall("retried", ps, retried, "a failed write is tried again unless the key has a value now",
               sel=lambda p: sum(1 for e in events(p) if is_wr(e)) == 1)
    for n, g in sorted(c.methods.items()):
        if g is f or n == "__init__":
            continue
        qs = ctx.run(g, cls=c, exc="none")

        def untouched(p):
            absent = [q for q, b, _ in p.guards if not b and q[0] == "in" and q[2] in (W, SELF)]
            for e in flat_events(p.events):
                if is_wr(e) and not (e.kind == "setitem" and any(q[1] == e.args["key"] for q in absent)):
                    return "an entry of the wrapped dictionary is changed"
            return True
        ctx.forall(f"FirstEntryDict.{n} keeps", qs, untouched, "changes no entry")

    # the comparison
    def atom(t, v):
        if t == K or t == V:
            return UNK
        if t[0] == "in" and t[1] == K and t[2] == W:
            return v["in"]
        if t == PC:
            return v["p"]
        if t[0] == "call" and tstr(t[1]).endswith("random.random"):
            return v.get("r", 0.5)
        if t[0] == "truthy" and fn_name(t[1]) == "DeepDiff":
            return not v["same"]
        if t[0] == "call" and t[1] == ("ext", "len") and fn_name(t[2][0]) == "DeepDiff":
            return 0 if v["same"] else 1
        return UNK
    ps0 = ctx.run(f, cls=c, exc="none")

    def compared(p):
        """the stored value was compared with the new one"""
        for g, b, _ in p.guards:
            for x in subterms(g):
                if isinstance(x, tuple) and x and x[0] == "call" and fn_name(x) == "DeepDiff":
                    if any(n.startswith(("ignore", "exclude", "include", "significant", "truncate", "math",
                                         "custom", "number_format")) and v not in (FALSE, NONE) for n, v in x[3]):
                        return False
                    a = set(x[2]) | {v for n, v in x[3] if n in ("t1", "t2")}
                    st = [y for y in a if y != V and contains(y, W) and contains(y, K)]
                    if V in a and st:
                        return True
                    return False
                if isinstance(x, tuple) and x and x[0] == "eq" and V in x[1:3] and contains(x, W):
                    return True
        return None

    def out(p, exp):
        if exp == "refuse":
            if p.kind == "raise":
                return True
            r = compared(p)
            return "accepts a different value for a key that has one" if r is not None or not any(
                has_call(g[0], "DeepDiff") for g in p.guards) else None
        if exp == "checked":
            if p.kind == "raise":
                return "refuses an equal value"
            r = compared(p)
            return r if r is None or r is True else "compares something else than stored and new value"
        if exp == "quiet":
            return p.kind == "return" or "raises although no check was asked for"
    rows = [("check on, different value", dict(**{"in": True}, p=1, r=0.999999, same=False), "refuse"),
            ("check on, equal value", dict(**{"in": True}, p=1, r=0.999999, same=True), "checked"),
            ("check off (0)", dict(**{"in": True}, p=0, r=0.0, same=False), "quiet"),
            ("check off (None)", dict(**{"in": True}, p=None, r=0.0, same=False), "quiet"),
            ("sampled, drawn", dict(**{"in": True}, p=0.5, r=0.25, same=False), "refuse"),
            ("sampled, not drawn", dict(**{"in": True}, p=0.5, r=0.75, same=False), "quiet")]
    ctx.table("repeated assignment", ps0, rows, atom, out, "a repeated assignment is compared as configured")

    def lost(p):
        """nothing was written by us, so the value may be another one"""
        if p.kind != "return" or any(is_wr(e) and not failed(e) for e in events(p)):
            return True
        return "a conflicting value is accepted when another writer was first"
    on = dict(p=1, r=0.999999, same=False)

    def atom2(t):
        return UNK if t[0] == "in" else atom(t, on)
    ctx.forall("lost race", ps, lost, "what somebody else wrote first is compared",
               paths=[p for p in ps.paths or () if consistent(p, atom2)], need=2)

    def unseen(p):
        return p.kind == "return" or "a first value is refused"

    def after_write(t):
        return UNK
    first = [p for p in ps0.paths or () if next((b for k, a, b in timeline(p) if k == "g" and is_in(a)), None) is False
             and [b for k, a, b in timeline(p) if k == "g" and is_in(a)][-1] in (True, False)
             and not ([b for k, a, b in timeline(p) if k == "g" and is_in(a)].count(False) > 1)]
    ctx.forall("first value accepted", ps0, unseen, "a first value is accepted", paths=first, need=1)

    delegation(ctx, c, W)


def delegation(ctx, c, W):
    """The questions about entries are answered by the wrapped dictionary."""
    for m, kind in (("__contains__", "in"), ("__getitem__", "get"), ("__len__", "len"), ("timestamp", "ts"),
                    ("_generic_iter", "iter")):
        g = c.methods.get(m)
        if g is None:
            ctx.check(f"FirstEntryDict.{m}", None, c.loc(), "not defined")
            continue
        qs = ctx.run(g, cls=c, exc="handlers")
        for n in ast.walk(g.node):
            if isinstance(n, ast.ExceptHandler) and any(isinstance(x, ast.Return) and (
                    x.value is None or isinstance(x.value, ast.Constant)) for x in ast.walk(n)):
                ctx.check(f"FirstEntryDict.{m}: failures", False, g.loc(), "a failure of the wrapped dictionary is hidden by a made-up answer")
        ar = [sym(x) for x in g.params()[0][1:]]

        def deleg(p, kind=kind, ar=ar):
            if p.kind != "return":
                return True if p.value and p.value[0] == "exc" and p.value[2][0] == "from" else "raises"
            v = p.value
            if kind == "in":
                if v[0] == "in":
                    return (v[1] == ar[0] and v[2] == W) or "asks about another key"
                if is_c(v) and isinstance(v[2], bool):
                    for q, b, _ in p.guards:
                        if q[0] == "in" and q[1] == ar[0] and q[2] == W:
                            return b == v[2] or "answers the opposite"
                    return "the answer does not depend on the wrapped dictionary"
                if fn_name(v) == "__contains__":
                    return True
                return None
            if not contains(v, W):
                return "the wrapped dictionary is not used" if is_c(v) or (v[0] == "attr" and v[1] == SELF) or contains(
                    v, ("attr", SELF, "__dict__")) else None
            if kind == "get":
                if v[0] == "call" and v[1] == ("attr", W, "get"):
                    return "a key that is missing is answered with something made up"
                return (v[0] == "item" and v[1] == W and v[2] == ar[0]) or (
                    None if v[0] != "item" else "returns another item")
            if kind == "ts":
                x = v
                while x[0] == "call" and x[1] == ("ext", "float") and len(x[2]) == 1:
                    x = x[2][0]
                if x[0] == "op" or x[0] == "call" and x[1] in (("ext", "int"), ("ext", "round")):
                    return "the timestamp is altered"
            if kind == "len":
                return (v[0] == "call" and v[1] == ("ext", "len") and v[2] == (W,)) or (
                    "the length is altered" if v[0] == "op" or v[0] == "call" and v[1] in (("ext", "max"), ("ext", "min")) else None)
            return all(contains(v, a) for a in ar) or "the argument is not passed on"
        ctx.forall(f"FirstEntryDict.{m}", qs, deleg, "delegates to the wrapped dictionary", need=1)
