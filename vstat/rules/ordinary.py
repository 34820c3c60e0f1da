"""Wrapped functions: admission, calling, normalisation, execution (C19-C23)."""
from .base import *
import re

NORM = "__get_normalized_function_source__"


def function_classes(ctx):
    P = ctx.P
    base = P.cls("OrdinaryFn")
    return [base] + sorted((c for c in P.subclasses(base) if "OLD" not in c.mod.name and "_000_tests" not in c.mod.name),
                           key=lambda c: c.name)


def ext_call(t, *names):
    return isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "ext" and \
        t[1][1].split(".")[-1] in names


# ------------------------------------------------------------------ C19
@rule("C19", "table", "only plain functions with named parameters pass the admission check")
def c19(ctx):
    f = ctx.P.func("assert_ordinarity")
    ps = ctx.run(f, exc="none")
    a = sym("a_func")

    def atom(t, v):
        if ext_call(t, "callable"):
            return v["callable"]
        if ext_call(t, "isfunction"):
            return v["fn"]
        if ext_call(t, "ismethod"):
            return v["method"]
        if ext_call(t, "iscoroutinefunction"):
            return v["coro"]
        if ext_call(t, "isasyncgenfunction"):
            return v.get("agen", False)
        if t[0] == "isinstance" and t[1] == a:
            n = str(t[2]).split(".")[-1]
            return {"MethodType": v["method"], "FunctionType": v["fn"], "Callable": v["callable"],
                    "LambdaType": v["fn"]}.get(n, UNK)
        if t[0] == "hasattr" and t[1] == a:
            return True if t[2] in ("__closure__", "__name__", "__code__") and v["fn"] else UNK
        if t == ("attr", a, "__closure__"):
            return ("cell",) * v["closure"] or None
        if ext_call(t, "len") and len(t[2]) == 1 and v["closure"] and any(
                x == ("attr", a, "__closure__") or (ext_call(x, "getattr") and C("__closure__") in x[2]) for x in terms(t[2][0])):
            return v["closure"]
        if t == ("attr", ("attr", a, "__code__"), "co_freevars"):
            return ("name",) * v["closure"]
        if t[0] == "call" and t[1] == ("ext", "getattr") and len(t[2]) > 1 and t[2][0] == a:
            if t[2][1] == C("__closure__"):
                return ("cell",) * v["closure"] or None
            if t[2][1] == C("__name__"):
                return "<lambda>" if v["lam"] else "f"
        if t == ("attr", a, "__name__"):
            return "<lambda>" if v["lam"] else "f"
        if fn_name(t) == "accepts_unlimited_positional_args":
            return v["varpos"]
        return UNK
    good = dict(callable=True, fn=True, method=False, closure=0, lam=False, varpos=False, coro=False)
    rows = [("a plain function", good, True)]
    for lab, ch in [("something that is not callable", dict(callable=False, fn=False)),
                    ("a callable that is not a function", dict(fn=False)),
                    ("a method", dict(fn=False, method=True)), ("a closure over one variable", dict(closure=1)), ("a closure over several variables", dict(closure=3)),
                    ("a lambda", dict(lam=True)), ("a function with *args", dict(varpos=True)),
                    ("an async function", dict(coro=True))]:
        rows.append((lab, {**good, **ch}, False))

    def out(p, exp):
        if exp:
            return p.kind == "return" or "a plain function is refused"
        if p.kind == "raise":
            return p.value[1] in ("AssertionError", "TypeError", "ValueError") or None
        return "accepted"
    ctx.table("assert_ordinarity", ps, rows, atom, out, "admission")


@rule("C19", "varargs", "unlimited positional parameters are recognised")
def c19_var(ctx):
    f = ctx.P.func("accepts_unlimited_positional_args")
    ps = ctx.run(f, exc="none")

    def kindguard(c):
        return c[0] in ("eq", "is") and any(
            isinstance(x, tuple) and x and x[0] in ("ext", "attr") and str(x[-1]).endswith("VAR_POSITIONAL")
            for x in subterms(c))

    def src_ok(t):
        if not (has_attr(t, "parameters") and any(ext_call(x, "signature") for x in terms(t))):
            return False
        if any(x[0] == "item" and (x[2][0] == "slice" or ext_call(x[2], "slice")) for x in terms(t)) or has_call(t, "islice"):
            return "some parameters are not looked at"
        return True

    def count(t, n):
        """parameters of a function with n of them"""
        if has_attr(t, "parameters") and t[0] in ("attr", "call") and (is_attr(t, "parameters") or fn_name(t) in ("values", "items", "keys")):
            return ("p",) * n
        return UNK

    def ok(p):
        if p.kind != "return":
            return None
        for e in events(p):
            if e.kind == "loop" and e.x["iter"] is not None and isinstance(src_ok(e.x["iter"]), str):
                return src_ok(e.x["iter"])
        if p.value == TRUE:
            g = [b for c, b, _ in p.guards if kindguard(c)]
            return True if g and g[-1] else None if not g else "answers yes for other parameters"
        if p.value == FALSE:
            for e in events(p):
                if e.kind == "loop" and e.x["iter"] is not None and src_ok(e.x["iter"]):
                    for k, xs, gs in e.x["iters"]:
                        if k in ("break",) and not any(kindguard(c) and b for c, b, *_ in gs):
                            return "not all parameters are looked at"
                        if k == "return" and not any(kindguard(c) and b for c, b, *_ in gs):
                            return "not all parameters are looked at"
                        if k == "next" and any(kindguard(c) and b for c, b, *_ in gs):
                            return "a *args parameter is passed over"
                    return True
            if any(kindguard(x) for c, b, _ in p.guards for x in terms(c) if x[0] in ("eq", "is")):
                return True
            if [e for e in events(p) if e.kind == "loop"] or any(
                    x[0] == "any" or fn_name(x) in ("any", "getfullargspec") or has_attr(x, "co_flags") for c, b, _ in p.guards for x in terms(c)):
                return None
            return "answers no without looking at the kinds of the parameters" if consistent(
                p, lambda t: count(t, 1)) or consistent(p, lambda t: count(t, 3)) else True
        v = p.value
        if v[0] in ("any",) and any(kindguard(x) for x in terms(v) if x[0] in ("eq", "is")):
            return src_ok(v) or None
        return None
    ctx.forall("accepts_unlimited_positional_args", ps, ok, "decided by the kinds of all parameters", need=1)


@rule("C19", "gate", "source is only taken from something admitted, and must be one plain function")
def c19_gate(ctx):
    f = ctx.P.func(NORM)
    ps = ctx.run(f, exc="none")
    a = sym("a_func")

    def gate(p):
        if p.kind != "return":
            return True
        cal = [b for c, b, _ in p.guards if ext_call(c, "callable") or (c[0] == "truthy" and ext_call(c[1], "callable"))]
        adm = calls(p, "assert_ordinarity")
        src = [e for e in events(p) if last(e) == "getsource"]
        if src and not [e for e in adm if a in e.args.values()]:
            return "the source of a function is taken although it was not admitted"
        order = list(flat_events(p.events))
        if src and order.index(src[0]) < order.index(next(e for e in adm if a in e.args.values())):
            return "the source of a function is taken before it is admitted"
        if (cal and cal[0]) and not adm:
            return "a callable is accepted without the admission check"
        ok_def = [b for c, b, _ in p.guards if c[0] == "isinstance" and str(c[2]).split(".")[-1] == "FunctionDef"
                  and not any(x[0] == "elem" for x in terms(c))]
        if not ok_def:
            return "source that is not a plain function definition is accepted"
        if not ok_def[0]:
            return None
        nd = [(c, b) for c, b, _ in p.guards if c[0] in ("lt", "eq") and has_attr(c, "decorator_list")
              and any(ext_call(x, "len") for x in terms(c))]
        dl = decorator_bound(nd)
        if dl is False:
            return "functions with several decorators are accepted"
        return True if dl else None
    ctx.forall("normalisation admits", ps, gate, "admission before normalisation", need=2)

    def first(t):
        t = unver(t)
        return t[0] == "item" and unver(t[2]) == C(0) and is_attr(t[1], "body") or (
            t[0] == "item" and unver(t[2]) == C(0) and t[1][0] == "attr" and t[1][2] == "body")

    def kindatom(kind):
        up = {"Expr": ("Expr", "stmt", "AST")}.get(kind, (kind, "stmt", "AST"))

        def atom(t):
            if t[0] == "isinstance" and first(t[1]):
                return str(t[2]).split(".")[-1] in up
            if t[0] in ("hasattr",) and first(t[1]):
                return {"decorator_list": kind.endswith("Def"), "body": kind != "Expr", "name": kind.endswith("Def"),
                        "args": kind.endswith("FunctionDef")}.get(t[2], UNK)
            if t[0] == "typeof" and first(t[1]):
                return ("T", kind)
            if t[0] == "ext" and t[1].startswith("ast."):
                return ("T", t[1][4:])
            if fn_name(t) == "callable" and t[2] == (a,):
                return UNK
            return UNK
        return atom
    for kind in ("AsyncFunctionDef", "ClassDef", "Expr", "If", "Assign", "Import"):
        at = kindatom(kind)

        def refused(p, kind=kind):
            if p.kind != "return":
                return True
            return f"source that begins with {kind} is accepted"
        ctx.forall(f"first statement: {kind}", ps, refused, "only plain function definitions are accepted",
                   paths=[p for p in ps if consistent(p, at)], need=0)

    def whole(p):
        if p.kind != "return":
            return True
        for e in events(p):
            if e.kind == "setattr" and e.name == "body" and e.recv is not None and fn_name(e.recv) == "parse":
                v = unver(e.args["value"])
                if v[0] == "attr" and v[2] == "body" and first(v[1]):
                    continue
                if any(x[0] == "item" and (x[2][0] == "slice" or ext_call(x[2], "slice")) for x in terms(v)) or v[0] == "list":
                    return "the source need not begin with the function"
                return None
            if e.kind == "loop" and any(x.kind == "setattr" and x.name == "body" and x.recv is not None and fn_name(x.recv) == "parse"
                                        for k, xs, gs in e.x["iters"] for x in flat_events(xs)):
                return "the source need not begin with the function"
        return True
    ctx.forall("nothing is skipped", ps, whole, "the function is the first thing in the source", need=2)
    # every function object gets its source from there
    i = ctx.P.func("OrdinaryFn.__init__")
    for c in function_classes(ctx):
        g = c.find("__init__")
        pi = ctx.run(g, cls=c, exc="none", inline=("__init__",), opaque=(
            "PortalAwareClass.__init__", "_begin_fn_registration", "_preprocess_guards", "update"))

        def src(p):
            if p.kind != "return":
                return True
            w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "fn_source_code"]
            up = calls(p, "update")
            if not w and not up:
                return f"{c.name} is created without source code"
            for e in w:
                v = e.args["value"]
                if fn_name(v) != NORM:
                    return None if v[0] != "sym" else f"{c.name} takes source code that was not checked"
                arg = call_arg(v, "a_func", 0)
                if arg is not None and arg not in (a, sym("a_fn")) and (contains(arg, a) or contains(arg, sym("a_fn"))):
                    return f"{c.name} is made from something else than what was passed"
                if a not in v[2] and a not in [x for _, x in v[3]] and sym("a_fn") not in list(v[2]) + [x for _, x in v[3]]:
                    return None
            return True
        ctx.forall(f"{c.name} source", pi, src, "source code comes from the normalisation", need=1)


def decorator_bound(nd):
    """Do the guards exclude two decorators?"""
    def atom(t):
        return 2 if ext_call(t, "len") and has_attr(t, "decorator_list") else UNK
    if not nd:
        return False
    unk = False
    for c, b in nd:
        v = teval(c, atom)
        if v is UNK:
            unk = True
        elif bool(v) != b:
            return True
    return None if unk else False


def changed(p, ex, kw):
    """Are the arguments changed before the execution?"""
    evs = list(events(p))
    return any(e.recv == kw and (e.kind in ("setitem", "delitem", "inplace") or e.kind == "call" and last(e) in (
        "pop", "popitem", "update", "clear", "setdefault", "__setitem__", "__delitem__")) for e in evs[:evs.index(ex)])


# ------------------------------------------------------------------ C20
@rule("C20", "call", "positional arguments are refused before anything happens")
def c20(ctx):
    for c in function_classes(ctx):
        f = c.find("__call__")
        ps = ctx.run(f, cls=c, exc="none")
        pos, kw = f.node.args.vararg, f.node.args.kwarg
        if len(f.params()[0]) > 1 or kw is None:
            ctx.check(f"{c.name}.__call__", False if not kw else None, f.loc(), "takes named positional parameters")
            continue
        if pos is None:
            ctx.check(f"{c.name}.__call__ positional", True, f.loc(), "Python refuses positional arguments")
        pa = sym(pos.arg) if pos else None

        def atom(t, v):
            return v["a"] if pa is not None and t == pa else UNK

        def out(p, exp):
            ex = [e for e in events(p) if e.kind == "call" and last(e) == "execute"]
            if exp == "refuse":
                if p.kind == "raise":
                    return not ex or "refused only after the execution"
                return "positional arguments are accepted (and ignored)"
            if p.kind != "return":
                return "a call with keyword arguments is refused"
            if len(ex) != 1:
                return "the function is not executed exactly once"
            vals = ex[0].args
            if not any(v == sym(kw.arg) for v in vals.values()) or changed(p, ex[0], sym(kw.arg)):
                return "the keyword arguments are not passed on unchanged"
            if p.value != ex[0].res:
                return "what the function returned is not returned"
            return True
        rows = [("keyword arguments only", dict(a=()), "run")]
        if pa is not None:
            rows += [("one positional argument", dict(a=(1,)), "refuse"),
                     ("two positional arguments", dict(a=(1, 2)), "refuse"),
                     ("one false positional argument", dict(a=(None,)), "refuse")]
        ctx.table(f"{c.name}.__call__", ps, rows, atom, out, "keyword arguments only")
        ph = ctx.run(f, cls=c, exc="handlers", base_exc=True)

        def once(p):
            ex = [e for e in events(p) if e.kind == "call" and last(e) == "execute"]
            bad = [e for e in ex if failed(e)]
            if bad and len(ex) > 1:
                return "a failed call is executed again"
            if bad and p.kind != "raise":
                return "a failed call returns something"
            return True
        ctx.forall(f"{c.name}: failed calls", ph, once, "executed once even if it fails", need=1)


@rule("C20", "execution", "the call is executed once, with exactly its arguments, and its result is returned")
def c20_execution(ctx):
    f = ctx.P.func("OrdinaryFn.execute")
    kw = sym(f.params()[3])
    for c in function_classes(ctx):
        for exc in ("none", "handlers"):
            ps = ctx.run(f, cls=c, exc=exc, opaque=("_complete_fn_registration",))

            def ok(p):
                ex = runs(p)
                if len(ex) > 1:
                    return "the function is executed again"
                if p.kind != "return" or len(ex) != 1 or failed(ex[0]):
                    return True
                if changed(p, ex[0], kw):
                    return "the arguments are changed before the function is executed"
                v = unver(p.value)
                if v[0] == "c" or v == kw:
                    return "something else than the result is returned"
                if v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("get", "pop", "__getitem__") and v[2]:
                    v = ("item", v[1][1], v[2][0])
                if v[0] == "item" and v[1][0] == "dict" and v[2][0] == "attr" and v[2][1] == SELF and v[2][2] in (
                        "_tmp_fn_name", "_kwargs_var_name", "fn_name"):
                    return f"the result is read from {v[2][2]}"
                return True
            ctx.forall(f"{c.name}: {exc}", ps, ok, "executed once with its arguments", need=1)
        g = c.find("execute")
        if g is f:
            continue
        gk = sym((g.params()[3] or "kwargs"))
        pg = ctx.run(g, cls=c, exc="handlers", base_exc=True, opaque=("OrdinaryFn.execute",),
                     raises=lambda e: e.name == "OrdinaryFn.execute")

        def once(p, c=c, gk=gk):
            ex = inner(p)
            if len(ex) > 1:
                return "the function is executed again"
            if ex and not ctx.P.cls("PureFn") in [c] + list(ctx.P.cls(c.name).mro):
                if not any(v == gk for v in ex[0].args.values()) or changed(p, ex[0], gk):
                    return "the keyword arguments are not passed on unchanged"
                if p.kind == "return" and not failed(ex[0]) and unver(p.value) != unver(ex[0].res):
                    return "something else than the result is returned"
            return True
        ctx.forall(f"{c.name}: its own execute", pg, once, "executed once with its arguments", need=1)


def inner(p):
    """Calls of the execute method of the classes wrapped functions are derived from."""
    return [e for e in events(p) if e.kind == "call" and e.name == "OrdinaryFn.execute"]


# ------------------------------------------------------------------ C21
DOCKINDS = ("FunctionDef", "AsyncFunctionDef", "ClassDef")
BODYKINDS = ("If", "With", "AsyncWith", "For", "AsyncFor", "While", "Try", "ExceptHandler", "match_case")
PARENTS = {**{k: ("stmt", "AST") for k in BODYKINDS if k != "match_case"}, "match_case": ("AST",),
           "ExceptHandler": ("excepthandler", "AST"), "FunctionDef": ("stmt", "AST"), "AsyncFunctionDef": ("stmt", "AST"), "ClassDef": ("stmt", "AST"),
           "arg": ("AST",), "If": ("stmt", "AST"), "Constant": ("expr", "AST"), "Assert": ("stmt", "AST"),
           "Expr": ("stmt", "AST"), "Assign": ("stmt", "AST")}


def is_body(t, e):
    return (t[0] == "attr" and t[1] == e and t[2] == "body") or (t[0] == "mu" and t[-1] == "body")


def is_tail(t, e):
    """body[1:]"""
    return t[0] == "item" and is_body(t[1], e) and t[2] in (
        ("slice", C(1), NONE, NONE), ("call", ("ext", "slice"), (C(1), NONE, NONE), ()),
        ("call", ("ext", "slice"), (C(1), NONE), ()))


def is_tail_any(t, e):
    return t[0] == "item" and is_body(t[1], e) and "slice" in tstr(t[2]) and "1" in tstr(t[2]).split(",")[0]


def node_atom(e):
    def first(t):
        return t[0] == "item" and t[2] == C(0) and is_body(t[1], e)

    def atom(t, v):
        if t[0] == "isinstance":
            n = str(t[2]).split(".")[-1]
            if t[1] == e:
                return n == v["k"] or n in PARENTS.get(v["k"], ())
            if first(t[1]):
                return {"Expr": v["first"] == "expr", "stmt": True, "AST": True}.get(n, UNK)
            if t[1][0] == "attr" and t[1][2] == "value" and first(t[1][1]):
                return {"Str": v.get("v") == "str", "Constant": v.get("v") in ("str", "int"),
                        "expr": True}.get(n, UNK)
            if t[1][0] == "attr" and t[1][2] in ("value", "s") and t[1][1][0] == "attr" and first(t[1][1][1]):
                return v.get("v") == "str" if n == "str" else UNK
        if t[0] == "hasattr" and first(t[1]) and t[2] == "value":
            return v["first"] == "expr" or UNK
        if t[0] == "hasattr" and t[1] == e:
            return {"body": v["k"] in DOCKINDS + BODYKINDS, "annotation": v["k"] == "arg",
                    "returns": v["k"] in DOCKINDS[:2]}.get(t[2], UNK)
        if is_body(t, e):
            return [1, 2] if v.get("rest", True) else [1]
        if t[0] == "item" and is_body(t[1], e) and t[2] != C(0):
            return [2] if v.get("rest", True) else []
        if ext_call(t, "get_docstring"):
            return "doc" if v["first"] == "expr" and v.get("v") == "str" else None
        return UNK
    return atom


def has_elem(t):
    return any(x[0] == "elem" for x in terms(t))


def edits(evs, e):
    """(attribute, value, event) of what is changed in node e."""
    out = []
    for x in evs:
        if x.kind == "setattr" and x.recv == e:
            out.append((x.name, x.args["value"], x))
        elif x.kind == "delattr" and x.recv == e:
            out.append((x.name, NONE, x))
        elif x.kind in ("setitem", "delitem") and x.recv is not None and (
                is_body(x.recv, e) or is_tail_any(x.recv, e)):
            out.append(("body[]", x.args.get("value"), x))
        elif x.kind == "call" and x.recv is not None and (is_body(x.recv, e) or is_tail_any(x.recv, e)) \
                and last(x) in ("append", "insert", "pop", "remove", "clear", "extend", "reverse"):
            out.append((last(x), x.args, x))
    return out


@rule("C21", "edits", "normalisation removes docstrings, annotations and the library decorator, nothing else")
def c21(ctx):
    f = ctx.P.func(NORM)
    ps = ctx.run(f, exc="none")
    if ps.paths is None:
        ctx.check("normalisation", None, f.loc(), ps.why)
        return
    walks = {}
    unknown = []
    for p in ps.returns():
        for e in events(p):
            if e.kind == "loop" and e.x["iter"] is not None and ext_call(strip_wrappers(e.x["iter"]), "walk"):
                walks.setdefault(repr(e.x["iter"])[:2000], []).append(e)
    seen = [w[0] for w in walks.values()]
    rows = []
    for k in ("arg",) + DOCKINDS + BODYKINDS + ("Constant", "Assert"):
        if k in DOCKINDS + BODYKINDS:
            for first, v in (("expr", "str"), ("expr", "int"), ("expr", "call"), ("assign", None)):
                for rest in (True, False):
                    rows.append(dict(k=k, first=first, v=v, rest=rest))
        else:
            rows.append(dict(k=k, first="assign"))
    if not seen:
        ctx.check("tree walk", None, f.loc(), "no walk over the whole tree found")
    bad = None
    for r in rows:
        doc = r["first"] == "expr" and r.get("v") == "str" and r["k"] in DOCKINDS
        did = {"annotation": False, "returns": False, "doc": False, "pass": False}
        wrong = None
        und = not seen
        n = 0
        for e in seen:
            el = ("elem", e.x["iter"])
            cand = []
            for kk, xs, gs in e.x["iters"]:
                els = {t for x in flat_events(xs) for t in terms(x.recv or NONE) if t[0] == "elem"} | \
                      {t for c, *_ in gs for t in terms(c) if t[0] == "elem"}
                el0 = next((t for t in els if ext_call(strip_wrappers(t[1]), "walk")), el)
                if gconsistent([g for g in gs], lambda t: node_atom(el0)(t, r)):
                    cand.append((kk, xs, gs, el0))
            if not cand:
                und = True
            # every candidate iteration must do what is required (summarised over all walks)
            for what in did:
                ok_all = bool(cand)
                for kk, xs, gs, el0 in cand:
                    ed = edits(list(flat_events(xs)), el0)
                    n += 1
                    if what in ("annotation", "returns"):
                        ok = any(a == what and v == NONE for a, v, _ in ed)
                    elif what == "doc":
                        ok = any((a == "body" and is_tail_any(v, el0)) or
                                 (a == "pop" and list(v.values()) == [C(0)]) or
                                 (a == "body[]" and x.kind == "delitem" and x.args.get("key") == C(0)) or
                                 (a == "body" and has_call(v, "Pass"))
                                 for a, v, x in ed)
                    else:
                        ok = any(isinstance(v, dict) and a in ("append", "insert") and
                                 any(has_call(y, "Pass") for y in v.values()) or
                                 (not isinstance(v, dict) and v is not None and a in ("body", "body[]")
                                  and has_call(v, "Pass")) for a, v, x in ed)
                    ok_all = ok_all and ok
                did[what] = did[what] or ok_all
            for kk, xs, gs, el0 in cand:
                if kk not in ("next",):
                    wrong = wrong or "the walk over the tree is left early"
                for a, v, x in edits(list(flat_events(xs)), el0):
                    if a == "annotation" and r["k"] == "arg" and v == NONE:
                        continue
                    if a == "returns" and r["k"] in DOCKINDS[:2] and v == NONE:
                        continue
                    if a in ("body", "pop", "append", "insert", "body[]") and doc:
                        if a == "body" and not (is_tail_any(v, el0) or (has_call(v, "Pass"))):
                            wrong = wrong or f"the body of a {r['k']} becomes {tstr(v)}"
                        continue
                    if a == "type_comment":
                        continue
                    wrong = wrong or f"{a} of a {r['k']} is changed although it has no docstring" \
                        if a in ("body", "pop", "append", "insert", "body[]") else \
                        wrong or f"{a} of a {r['k']} is changed"
        lab = r["k"] + ("" if r["k"] not in DOCKINDS else ": " + (
            {"str": "docstring", "int": "constant", "call": "expression"}.get(r.get("v"), "statement")
            + (" and more" if r["rest"] else " only")))
        if wrong:
            ctx.check(f"walk {lab}", False, f.loc(), wrong, n)
            continue
        need = []
        if r["k"] == "arg":
            need.append("annotation")
        if r["k"] in DOCKINDS[:2]:
            need.append("returns")
        if doc:
            need.append("doc")
            if not r["rest"]:
                need.append("pass")
        miss = [x for x in need if not did[x]]
        if miss and (und or other_visitors(ctx, ps)):
            ctx.check(f"walk {lab}", None, f.loc(), f"{miss} not found")
        else:
            ctx.check(f"walk {lab}", not miss, f.loc(),
                      {"annotation": "annotations of arguments survive", "returns": "return annotations survive",
                       "doc": f"the docstring of a {r['k']} survives",
                       "pass": "a body that is only a docstring becomes empty"}[miss[0]] if miss else
                      "only what is irrelevant is removed", n)


def transformers(ctx, ps):
    out = []
    for p in ps.returns():
        for e in events(p):
            if e.kind == "call" and last(e) in ("visit", "generic_visit") and e.recv is not None:
                for t in terms(e.recv):
                    if t[0] == "call" and t[1][0] == "cls":
                        try:
                            c = ctx.P.cls(t[1][1])
                        except AnalysisBroken:
                            continue
                        if c not in out:
                            out.append(c)
                    if t[0] == "new":
                        try:
                            c = ctx.P.cls(str(t[1]).split(":")[-1])
                        except AnalysisBroken:
                            continue
                        if c not in out:
                            out.append(c)
    return out


def other_visitors(ctx, ps):
    return any(m not in ("visit_AnnAssign", "visit_ClassDef", "__init__")
               for c in transformers(ctx, ps) for m in c.methods)


@rule("C21", "variables", "annotations of local variables go, their values stay; class fields keep theirs")
def c21_vars(ctx):
    f = ctx.P.func(NORM)
    ps = ctx.run(f, exc="none")
    ts = transformers(ctx, ps)
    if not ts:
        ctx.check("variable annotations", None, f.loc(), "no tree transformer is applied")
        return
    applied = [p for p in ps.returns()]
    ctx.forall("applied", ps, lambda p: p.kind != "return" or any(
        e.kind == "call" and last(e) == "visit" for e in events(p)) or "some functions are not transformed",
        "transformers are applied to every function", need=1)
    have_ann = False
    for c in ts:
        for n, m in c.methods.items():
            if not n.startswith("visit_") and n != "visit":
                continue
            k = n[6:]
            pm = ctx.run(m, cls=c, exc="none")
            node = sym(m.params()[0][1])

            def plain(v):
                """strip copy_location and the like"""
                while ext_call(v, "copy_location", "fix_missing_locations"):
                    v = v[2][0]
                return v
            if k == "AnnAssign":
                have_ann = True

                def atom(t, v, node=node):
                    return (("V" if v["v"] else None) if t == ("attr", node, "value") else
                            (1 if v.get("simple", True) else 0) if t == ("attr", node, "simple") else UNK)

                def out(p, exp, node=node):
                    if p.kind != "return":
                        return "raises"
                    v = plain(p.value)
                    if exp is None:
                        if ext_call(v, "Pass"):
                            return True
                        if v == NONE:
                            return "a declaration without value is removed, which can leave an empty body"
                        return "the annotation survives" if v == node else None
                    if v == node:
                        return "the annotation survives"
                    if not ext_call(v, "Assign"):
                        return None if v != NONE and not ext_call(v, "Pass", "Expr") else \
                            "an assignment with annotation is dropped"
                    tg, va = call_arg(v, "targets", 0), call_arg(v, "value", 1)
                    if seq_items(tg or NONE) != [("attr", node, "target")]:
                        return "the target of an annotated assignment changes" if tg else None
                    if not (va == ("attr", node, "value") or (va is not None and contains(va, ("attr", node, "value")))):
                        return "the value of an annotated assignment changes"
                    return True
                ctx.table(f"{c.name}.{n}", pm, [("with value", dict(v=True), True), ("without value", dict(v=False), None),
                                                           ("with value, for an attribute", dict(v=True, simple=False), True),
                                                           ("without value, for an attribute", dict(v=False, simple=False), None)],
                          atom, out, "annotated assignments become plain ones")
            elif k == "ClassDef":
                def cls_ok(p, node=node):
                    if p.kind != "return":
                        return "raises"
                    if p.value not in (node,) and fn_name(p.value) not in ("generic_visit", "visit"):
                        return None
                    for e in events(p):
                        if e.kind == "setattr" and e.recv == node and e.name == "body":
                            v = e.args["value"]
                            if v[0] != "list":
                                return None
                            for x in v[1]:
                                if x[0] != "each":
                                    return None
                                ann = [b for cc, b in x[3] if cc[0] == "isinstance" and str(cc[2]).endswith("AnnAssign")]
                                el = [t for t in terms(x[1]) if t[0] == "elem"]
                                if x[1][0] == "elem":
                                    if not (ann and ann[0]):
                                        return None if not ann else "statements of classes are not transformed"
                                elif fn_name(x[1]) in ("visit",):
                                    if ann and ann[0]:
                                        return "annotations of class fields are removed"
                                    if not ann:
                                        return "annotations of class fields are removed"
                                else:
                                    return None
                            return True
                        if e.kind == "setattr" and e.recv == node:
                            return f"{e.name} of classes is changed"
                    if fn_name(p.value) == "generic_visit" or calls(p, "generic_visit"):
                        return "annotations of class fields are removed"
                    if p.value == node and not any(e.kind in ("setattr", "setitem", "call", "mutate", "loop")
                                                   for e in p.events):
                        return "annotations of local variables of methods in local classes survive"
                    return None
                ctx.forall(f"{c.name}.{n}", pm, cls_ok, "class fields keep their annotations", need=1)
            else:
                def keeps(p, node=node, k=k):
                    if p.kind != "return":
                        return "raises"
                    if p.value == NONE or ext_call(plain(p.value), "Pass"):
                        return f"{k} nodes are removed"
                    if p.value == node or fn_name(p.value) in ("generic_visit",):
                        ch = [e for e in events(p) if e.kind in ("setattr", "delattr") and e.recv == node]
                        for e in ch:
                            if (k, e.name) in (("arg", "annotation"), ("FunctionDef", "returns"),
                                               ("AsyncFunctionDef", "returns")) and e.args.get("value") == NONE:
                                continue
                            return None
                        return True
                    return None
                ctx.forall(f"{c.name}.{n}", pm, keeps, f"{k} nodes are kept", need=1)
    if not have_ann:
        ctx.check("variable annotations", None if other_visitors(ctx, ps) else False, f.loc(),
                  "annotations of local variables survive, so functions that differ only in them differ")


@rule("C21", "source", "what is normalised is the source as written; the result is the formatted tree")
def c21_src(ctx):
    f = ctx.P.func(NORM)
    ps = ctx.run(f, exc="none")
    a = sym("a_func")
    SAFE = {"strip", "rstrip", "expandtabs"}
    HARM = {"cleandoc", "dedent", "replace", "splitlines", "split", "sub", "lstrip", "join", "lower", "upper", "expandtabs"}

    def src(t):
        """True | False (text changed) | None"""
        while t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("strip", "rstrip"):
            t = t[1][1]
        if t == a:
            return True
        if ext_call(t, "getsource"):
            return a in t[2]
        if has_call(t, *HARM) or has_call(t, "elem"):
            return False
        return None

    def parse_arg(p):
        if p.kind != "return":
            return True
        pa = [e for e in events(p) if e.kind == "call" and e.name == "ast.parse"]
        if not pa:
            return None
        for e in pa:
            t = e.args.get("0") or e.args.get("source")
            if t is None:
                return None
            if t[0] == "cat" and len(t[1]) == 2 and is_c(t[1][0]) and re.fullmatch(r"(if (True|1)|with x|class \w+|def \w+\(\)):\n", str(t[1][0][2])):
                r = src(t[1][1])
                un = [x for x in events(p) if x.kind == "setattr" and x.name == "body" and x.recv == e.res]
                if r and not any(unver(u.args["value"]) == unver(("attr", ("item", ("attr", e.res, "body"), C(0)), "body")) for u in un):
                    return None
            else:
                r = src(t)
            if r is False:
                return ("the source is edited as text before it is parsed, which changes the contents of "
                        "multi-line string literals")
            if r is None:
                return None
        return True
    ctx.forall("parsed text", ps, parse_arg, "the source is parsed as it is", need=2)

    def result(p):
        if p.kind != "return":
            return True
        v = p.value
        while v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("strip", "rstrip"):
            v = v[1][1]
        if any(x[0] == "call" and x[1][0] == "attr" and x[1][2] in (
                "strip", "rstrip", "lstrip", "replace", "expandtabs", "lower", "upper") and has_elem(x[1][1]) for x in terms(v)):
            return "the lines of the result are edited as text, which changes multi-line string literals"
        if ext_call(v, "fix_code"):
            more = list(v[2][1:]) + [x for n, x in v[3] if n not in ("source",)]
            for o in more:
                if "aggressive" in tstr(o) or "ignore" in tstr(o):
                    return "formatting is allowed to change the code"
                return None
            v = v[2][0] if v[2] else call_arg(v, "source")
        if not ext_call(v, "unparse"):
            return "the result is not made from the parsed function" if v == a else None
        return True
    ctx.forall("result", ps, result, "the formatted tree is returned", need=2)

    def resembles(p):
        for g, b, _ in p.guards:
            for x in terms(g):
                if "all_decorators" not in tstr(x):
                    continue
                if x[0] == "in" and unver(x[2])[0] == "elem":
                    return True
                if x[0] == "call" and x[1][0] == "attr" and x[1][2] in (
                        "startswith", "endswith", "find", "count", "index", "lower", "casefold", "strip"):
                    return True
        return False

    def deco(p):
        drop = [b for c, b, _ in p.guards if c == sym("drop_pth_decorators") or c == ("truthy", sym("drop_pth_decorators"))]
        isdec = [b for c, b, _ in p.guards if c[0] == "truthy" and (
            (is_attr(c[1], "decorator_list")) or (ext_call(c[1], "len") and has_attr(c[1], "decorator_list")))]
        match = [b for c, b, _ in p.guards if (c[0] in ("eq", "in")) and any(
            "all_decorators" in str(x[-1]) for x in terms(c) if x[0] in ("gvar", "attr", "elem", "ext", "sym", "modattr"))]
        match += [b for c, b, _ in p.guards if c[0] in ("any", "truthy", "in", "eq") and "all_decorators" in tstr(c)]
        w = [e for e in events(p) if e.kind == "setattr" and e.name == "decorator_list"]
        w += [e for e in events(p) if e.kind == "call" and last(e) in ("clear", "pop") and e.recv is not None and has_attr(e.recv, "decorator_list")]
        w += [e for e in events(p) if e.kind == "delitem" and e.recv is not None and has_attr(e.recv, "decorator_list")]
        if p.kind != "return":
            return True
        if w:
            if False in drop:
                return "decorators are removed although they should be kept"
            if not drop:
                return "decorators are removed although they should be kept"
            if resembles(p):
                return "a decorator that only resembles one of the library's is dropped"
            if True not in match:
                return "a decorator that is not the library's is dropped, which changes what the function does"
            if any(e.kind == "setattr" and seq_items(e.args["value"]) != [] for e in w):
                return None
            if any(has_elem(e.recv) for e in w):
                return "decorators of nested functions are removed"
            return True
        if True in drop and True in isdec:
            return "the library's decorator is kept" if True in match else \
                "a function with a foreign decorator is accepted"
        return True

    ctx.forall("decorators", ps, deco, "only the library's own decorator is dropped", need=2)


# ------------------------------------------------------------------ C22
class Render:
    """String terms as text with one private character per unknown part."""
    def __init__(self):
        self.m = {}

    def __call__(self, t):
        if is_c(t):
            return str(t[2])
        if t[0] == "cat":
            return "".join(self(x) for x in t[1])
        if t[0] == "op" and t[1] == "+":
            return self(t[2]) + self(t[3])
        if t not in self.m:
            self.m[t] = chr(0xE000 + len(self.m))
        return self.m[t]


def runs(p, name="exec"):
    return [e for e in events(p) if e.kind == "call" and e.name == name]


@rule("C22", "namespace", "every execution has a namespace of its own that holds its arguments and the function itself")
def c22(ctx):
    base = ctx.P.func("OrdinaryFn.execute")
    for c in function_classes(ctx):
        f = base
        ps = ctx.run(f, cls=c, exc="none", opaque=("_complete_fn_registration",))

        def ok(p):
            if p.kind != "return":
                return True
            ex = runs(p)
            if len(ex) != 1:
                return "the function is not executed exactly once"
            e = ex[0]
            if any(e in list(flat_events(l.events if hasattr(l, "events") else [])) for l in []):
                return None
            g = e.args.get("1") or e.args.get("globals")
            loc = e.args.get("2") or e.args.get("locals")
            if g is None:
                return "the function runs in the namespace of the library"
            if g[0] == "call" and g[1] == ("ext", "globals") or fn_name(g) in ("globals", "locals", "vars"):
                return "the function runs in the namespace of the library"
            if g[0] in ("attr", "gvar", "cls") or is_attr(g, "__dict__"):
                return "executions share a namespace"
            if g[0] == "call" and g[1][0] == "ext" and g[1][1] in ("dict", "copy.copy"):
                return None
            if g[0] != "dict":
                return None
            if loc is not None and (fn_name(loc) in ("globals", "locals", "vars") or is_attr(loc, "__dict__")):
                return "the function writes its names into a namespace of the library"
            if loc is not None and loc != g:
                return "globals and locals differ, so the function can not see itself" if loc[0] == "dict" else None
            done = [x for x in events(p) if x.kind == "call" and last(x) == "_complete_fn_registration" and x.recv in (SELF, ("super", SELF))]
            allv = list(events(p))
            if not done or allv.index(done[0]) > allv.index(e):
                if not any(unver(g_) == ("truthy", ("attr", SELF, "_fn_fully_registered")) and b for g_, b, _ in p.guards):
                    return "the function is executed before it was compiled"
            code = e.args.get("0")
            kv = [(x[1], x[2]) for x in g[1] if x[0] == "kv"]
            kw = [k for k, v in kv if v == sym("kwargs") or (ext_call(v, "dict") and sym("kwargs") in v[2])]
            if not kw:
                return "the arguments of the call do not reach the function"
            if not any(k == ("attr", SELF, "fn_name") and v == SELF for k, v in kv):
                return "the function can not call itself by its name"
            if not any(k == C("pth") for k, v in kv):
                return "the library is not available to the function"
            v = unver(p.value)
            if v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("get", "pop", "__getitem__") and v[2] and (v[1][1] == g or v[1][1][0] == "dict"):
                v = ("item", v[1][1], v[2][0])
            if not (v[0] == "item" and v[1] == g) and not (v[0] == "call" and "get" in tstr(v[1]) and False):
                if v[0] == "item" and v[1][0] == "dict":
                    pass
                else:
                    return None if v not in (NONE,) else "what the function returned is lost"
            if kw[-1][0] == "attr" and kw[-1][2] != "_kwargs_var_name":
                return f"the arguments are stored under {kw[-1][2]}"
            if v[0] == "item" and v[2][0] == "attr" and v[2][2] != "_result_var_name":
                return f"the result is read from {v[2][2]}"
            if unver(code) == ("attr", SELF, "fn_source_code"):
                return "the source is executed without what was registered"
            if code != ("attr", SELF, "_fn_bytecode"):
                return None
            return True
        ctx.forall(f"{c.name}: execution", ps, ok, "a namespace of its own", need=1)
        if c.name in ("AutonomousFn", "PureFn"):
            def deps(p):
                if p.kind != "return":
                    return True
                ex = runs(p)
                if not ex:
                    return None
                g = ex[0].args.get("1")
                if g is None or g[0] != "dict":
                    return None
                its = [x for y in g[1] for t in terms(y) for x in [t] if t[0] == "elem"] + [
                    ("elem", e.x["iter"]) for e in events(p) if e.kind == "loop" and e.x["iter"] is not None]
                for t in its:
                    if "dependencies" in tstr(t[1]) and any(
                            x[0] == "item" and x[2][0] == "slice" or fn_name(x) == "islice" for x in terms(t[1])):
                        return "some functions it depends on are not available to the function"
                for x in g[1]:
                    for y in terms(x):
                        if y[0] == "kveach" and len(y) > 4 and "dependencies" in tstr(y[3]) and any(
                                unver(q)[0] == "in" and unver(q)[1] == unver(y[1]) and has_call(q, "globals") for q, b in y[4]):
                            return "functions it depends on are hidden by names of the library"
                    t = x[1] if x[0] == "**" else x
                    if any(y[0] == "elem" and (fn_name(y[1]) == "dependencies" or "dependencies" in tstr(y[1]))
                           for y in terms(t)):
                        return True
                for e in events(p):
                    if e.kind == "loop" and e.x["iter"] is not None and "dependencies" in tstr(e.x["iter"]):
                        ws = [x for k, xs, gs in e.x["iters"] for x in flat_events(xs) if x.kind == "setitem"]
                        if ws:
                            return True
                return "the functions it depends on are not available to the function"
            ctx.forall(f"{c.name}: dependencies", ps, deps, "functions it depends on are available", need=1)


@rule("C22", "code", "what is executed is the registered source, called once with the arguments of the call")
def c22_code(ctx):
    f = ctx.P.func("OrdinaryFn._complete_fn_registration")
    c = ctx.P.cls("OrdinaryFn")
    ps = ctx.run(f, cls=c, exc="none")
    SRC = ("attr", SELF, "fn_source_code")

    def ok(p):
        if p.kind != "return":
            return True
        comp = [e for e in events(p) if e.kind == "call" and e.name in ("compile", "builtins.compile")]
        w = {e.name: e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF}
        if not comp:
            return "_fn_bytecode" not in w or None
        R = Render()
        text = R(comp[-1].args.get("0") or comp[-1].args.get("source") or NONE)
        m = re.search(r"\n(?P<r>[^\n=]+) = (?P<t>[^\n(]+)\(\*\*(?P<k>[^\n()]+)\)\n*$", text)
        if not m:
            if re.search(r"\n[^\n=]+ = [^\n(]+\([^\n]*\)\n*$", text):
                return "the arguments are not passed to the function by name"
            return None
        inv = {v: k for k, v in R.m.items()}
        nm = R(("attr", SELF, "fn_name"))
        if {m.group("k"), m.group("r")} & {nm, "self", "pth"}:
            return "the arguments or the result take the name of something the function uses"
        head = text[:m.start()].strip("\n")
        if len(head) == 1 and inv.get(head) == SRC:
            # the function keeps its own name
            if m.group("t") != R(("attr", SELF, "fn_name")):
                return "the code calls a name that the source does not define"
        elif len(head) == 1:
            t = inv[head]
            if not (t[0] == "call" and t[1] == ("attr", SRC, "replace")):
                return None if contains(t, SRC) else "the code executed is not the registered source"
            old, new = R(t[2][0]), R(t[2][1])
            if len(t[2]) < 3 or t[2][2] != C(1):
                return ("every occurrence of the name is replaced, so the function calls its raw code "
                        "instead of itself")
            for src in ("def f(x):", "def e(e=1, f=e(1)):", "def de(f):", "def long_name():"):
                name = src[4:src.index("(")]
                got = src.replace(old.replace(nm, name), new, 1)
                want = "def " + m.group("t") + src[4 + len(name):]
                if got != want and got == src:
                    return "the code calls a name that the source does not define"
                if got != want and new != " " + m.group("t") + "(" and new != "def " + m.group("t") + "(":
                    return "the code calls a name that the source does not define"
                if got != want:
                    return f"the name is replaced at the wrong place: {src!r} becomes {got.replace(m.group('t'), '<tmp>')!r}"
        else:
            return "the code executed is not the registered source" if R(SRC) not in text else None
        for at, g in (("_kwargs_var_name", "k"), ("_result_var_name", "r")):
            if at in w and R(w[at]) != m.group(g):
                return f"{at} is not the name used in the code"
            if at not in w and m.group(g) != R(("attr", SELF, at)):
                return None
        names = [m.group("k"), m.group("r"), m.group("t")]
        if len(set(names)) < 3:
            return "the names used for arguments, result and function coincide"
        mode = comp[-1].args.get("2") or comp[-1].args.get("mode")
        if mode != C("exec"):
            return "compiled in the wrong mode"
        if w.get("_fn_bytecode") != comp[-1].res:
            return "what is executed is not what was compiled"
        hs = [x for x in inv.values() if fn_name(x) == "get_hash_signature"]
        if any(SRC not in list(x[2]) + [v for _, v in x[3]] for x in hs):
            return "the identity of the function is not that of its source"
        return True
    ctx.forall("compilation", ps, ok, "the registered source is what runs", need=1)
    u = ctx.P.func("OrdinaryFn.update")
    pu = ctx.run(u, cls=c, exc="none")

    def copies(p):
        if p.kind != "return":
            return True
        w = {e.name: e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF}
        for k, v in w.items():
            if v[0] == "attr" and v[1] == sym("other") and v[2] != k:
                return f"{k} is copied from {v[2]}"
        for k in ("fn_source_code", "fn_name"):
            if k not in w:
                return f"{k} is not taken over"
        if w.get("_fn_fully_registered") == TRUE:
            miss = [k for k in ("_fn_bytecode", "_kwargs_var_name", "_result_var_name", "_tmp_fn_name",
                                "_fn_hash_id", "_fn_file_name") if k not in w]
            if miss:
                return f"counts as registered without {miss[0]}"
            reg = [b for g, b, _ in p.guards if "_fn_fully_registered" in tstr(g)]
            if True not in reg:
                return "counts as registered although the other function may not be"
        return True
    ctx.forall("copying", pu, copies, "a copy has the same code", need=1)


@rule("C22", "name", "the name of a function is the one its source defines")
def c22_name(ctx):
    f = ctx.P.func("get_function_name_from_source")
    ps = ctx.run(f, exc="none")

    def atomfor(line):
        def atom(t):
            return line if t[0] == "elem" else UNK
        return atom
    for line, name in (("def f(x):", "f"), ("def long_name_1(a, b=(1, 2)):", "long_name_1"), ("    def inner(x):", "inner"),
                       ("def f ():", "f"), ("def define(x): return f(x)", "define")):
        def found(p, line=line, name=name):
            for e in events(p):
                if e.kind == "loop" and e.x["iter"] is not None:
                    for k, xs, gs in e.x["iters"]:
                        if k == "next" and gs and all(teval(c, atomfor(line)) is not UNK for c, *_ in gs) and \
                                gconsistent(gs, atomfor(line)):
                            return f"the definition {line!r} is passed over"
            if p.kind != "return":
                return True
            v = teval(p.value, atomfor(line))
            if v is UNK:
                return None
            return v == name or f"the name of {line!r} becomes {v!r}"
        ctx.forall(f"name in {line!r}", ps, found, "the name that is defined", need=1,
                   paths=[p for p in ps if consistent(p, atomfor(line))])
    for line in ("", "@pth.ordinary()", "# a comment about def g(x)", "defined = f(1)", "default(1)", "x = 'def g(x)'"):
        def passed(p, line=line):
            if p.kind != "return" or teval(p.value, atomfor(line)) is UNK:
                return True
            return f"{line!r} is taken for the definition"
        ctx.forall(f"no name in {line!r}", ps, passed, "other lines are passed over", need=0,
                   paths=[p for p in ps if consistent(p, atomfor(line))])


@rule("C22", "compiled", "a function whose registration is completed has its code, whichever copy it is")
def c22_compiled(ctx):
    REG = ("truthy", ("attr", SELF, "_fn_fully_registered"))
    for c in function_classes(ctx):
        f = c.find("_complete_fn_registration")
        ps = ctx.run(f, cls=c, exc="none", inline=("_complete_fn_registration", "update"))

        def ok(p):
            if p.kind != "return":
                return True
            if p.guards and unver(p.guards[0][0]) == REG and p.guards[0][1]:
                return True
            code = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "_fn_bytecode"]
            return bool(code) or "a copy of a function counts as registered although it has no code"
        ctx.forall(f"{c.name}: code", ps, ok, "every copy has its code", need=2)
    c = ctx.P.cls("OrdinaryFn")
    f = c.find("__init__")
    a = f.params()[0][1]
    ps = ctx.run(f, cls=c, exc="none", inline=("update",))

    def copy(p):
        if p.kind != "return":
            return "a wrapped function cannot be made from another one"
        w = {e.name: e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF}
        for k in ("fn_source_code", "fn_name"):
            if k not in w:
                return f"{k} is not taken over"
            if unver(w[k]) != ("attr", sym(a), k):
                return f"{k} is not that of the other function"
        return True

    def isfn(t):
        if t[0] == "isinstance" and t[1] == sym(a):
            return "OrdinaryFn" in str(t[2])
        if t[0] == "call" and t[1] == ("ext", "callable"):
            return True
        return UNK
    cand = [p for p in ps if consistent(p, isfn)]
    ctx.forall("copy of a wrapped function", ps, copy, "it has the same source and name", paths=cand, need=1)


# ------------------------------------------------------------------ C23
@rule("C23", "record", "a failure is recorded in every entered portal and reaches the caller unchanged")
def c23(ctx):
    f = ctx.P.func("OrdinaryFn.execute")
    for c in function_classes(ctx):
        ps = ctx.run(f, cls=c, exc="handlers", opaque=("_complete_fn_registration", "dependencies", "decorator"),
                     base_exc=True, raises=lambda ev: ev.name == "exec")
        bad = [p for p in ps if any(failed(e) for e in runs(p))]
        exs = lambda p: next(e for e in runs(p) if failed(e))

        def same(p):
            if p.kind != "raise":
                return f"a failure of the function is turned into the value {tstr(p.value or NONE)}"
            fr = p.value[2] if p.value[0] == "exc" else None
            if fr and fr[0] == "from" and fr[1] == "exec":
                return True
            return "another exception reaches the caller"
        ctx.forall(f"{c.name}: same exception", ps, same, "the exception reaches the caller", paths=bad, need=1)

        def rec(p):
            exc = p.value if p.kind == "raise" else None
            if exc is None:
                return True
            sup = [b for g, b, _ in p.guards if "__suppress_logging__" in tstr(g) and g[0] in ("in", "hasattr")]
            none = [b for g, b, _ in p.guards if g[0] == "isnone" and any(x[0] == "exctype" for x in terms(g))]
            if True in none:
                return True
            w = [e for e in events(p) if e.kind == "setitem" and is_attr(e.recv, "crash_history")]
            if True in sup:
                return not w or "an exception that was recorded is recorded again"
            if not w:
                return "the exception is not recorded"
            r = each_iter(p.events, lambda t: entered_src(t) is True,
                          lambda e: e.kind == "setitem" and is_attr(e.recv, "crash_history")
                          and elem_src(e.recv[1]) is not None)
            if r is not True:
                return "the exception is not recorded in every entered portal" if r is False else None
            gen = own = False
            for e in w:
                k = seq_items(e.args["key"])
                if k is None:
                    if e.args["key"][0] == "op":
                        return None
                    return None
                if k[0] == C("__CATCH_ALL__"):
                    gen = True
                elif contains(k[0], ("attr", SELF, "fn_name")):
                    own = True
                for x in flat_events(p.events):
                    if x.kind == "call" and last(x) == "setdefault" and list(x.args.values())[:1] == [C("kwargs")] and \
                            list(x.args.values())[1:] != [sym("kwargs")]:
                        return "the record lacks some arguments of the call"
                d = dict_parts(e.args["value"])
                if d is None:
                    return None
                vals = d[0]
                if vals.get("exception") is None or vals["exception"][:2] != exc[:2] or vals["exception"][2] != exc[2]:
                    return "the record does not contain the exception"
                if vals.get("function_name") != ("attr", SELF, "fn_name"):
                    return "the record does not name the function" if "function_name" not in vals or not contains(
                        vals["function_name"], ("attr", SELF, "fn_name")) and not any(
                            x[0] == "call" for x in terms(vals["function_name"])) else None
                sc = [v for v in vals.values() if contains(v, ("attr", SELF, "fn_source_code"))]
                if not sc:
                    return "the record lacks the source code"
                if all(any(x[0] == "item" and contains(x, ("attr", SELF, "fn_source_code")) for x in terms(v)) for v in sc):
                    return "the record has only a part of the source code"
                if vals.get("kwargs") != sym("kwargs"):
                    return "the record lacks the arguments of the call"
            if not gen:
                return "the exception is not filed with all other exceptions"
            if not own:
                return "the exception is not filed under the function"
            return True
        ctx.forall(f"{c.name}: recorded", ps, rec, "the exception is recorded", paths=bad, need=1)
        g = c.find("execute")
        if g is f:
            continue
        pg = ctx.run(g, cls=c, exc="handlers", base_exc=True, opaque=("OrdinaryFn.execute",),
                     raises=lambda e: e.name == "OrdinaryFn.execute")

        def through(p):
            ex = [e for e in inner(p) if failed(e)]
            if not ex:
                return True
            if p.kind != "raise":
                return f"a failure of the function is turned into the value {tstr(p.value or NONE)}"
            return p.value[0] == "exc" and p.value[2][0] == "from" and p.value[2][1] == "OrdinaryFn.execute" or \
                "another exception reaches the caller"
        ctx.forall(f"{c.name}: its own execute", pg, through, "the exception reaches the caller", need=1)
