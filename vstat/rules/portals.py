"""Portal stack, portal selection, reset, pickling refusal (C01-C06, C45)."""
from .base import *
import ast

STACK = ("attr", ("cls", "BasicPortal"), "entered_portals_stack")
ALL = ("attr", ("cls", "BasicPortal"), "all_portals")


def portal_classes(ctx):
    return sorted(ctx.P.subclasses(ctx.P.cls("BasicPortal")), key=lambda c: len(c.mro))


def top_of(t):
    """container if t is container[-1]"""
    if t[0] == "item" and t[2] == C(-1):
        return t[1]
    return None


def effect(e):
    """(container attr name, kind, amount) of a mutation of a class level list."""
    def cname(r):
        return r[2] if isinstance(r, tuple) and r and r[0] == "attr" and r[1][0] == "cls" else None
    if e.kind == "call" and e.recv is not None:
        n = cname(e.recv)
        if n:
            m = last(e)
            if m == "append":
                return (n, "push", e.args.get("0"))
            if m == "pop" and ("0" not in e.args or e.args["0"] == C(-1)):
                return (n, "pop", None)
            if m in ("extend", "insert", "remove", "clear", "pop", "reverse", "sort"):
                return (n, "other", m)
    if e.kind == "delitem" and cname(e.recv):
        if e.args["key"] == C(-1):
            return (cname(e.recv), "pop", None)
        return (cname(e.recv), "other", "del")
    if e.kind == "setitem" and cname(e.recv):
        n, v, k = cname(e.recv), e.args["value"], e.args["key"]
        if k == C(-1) and v[0] == "op" and v[1] in "+-" and v[2][0] == "item" \
                and v[2][1] == e.recv and is_c(v[3]):
            return (n, "inc", v[3][2] if v[1] == "+" else -v[3][2])
        if k == C(-1) and v[0] == "op" and v[1] == "+" and v[3][0] == "item" \
                and v[3][1] == e.recv and is_c(v[2]):
            return (n, "inc", v[2][2])
        return (n, "other", "setitem")
    if e.kind == "setattr" and isinstance(e.recv, tuple) and e.recv[0] == "cls":
        v = e.args["value"]
        own = ("attr", e.recv, e.name)
        if v[0] == "op" and v[1] == "+" and v[2] == own and v[3][0] == "list" and \
                len(v[3][1]) == 1:
            return (e.name, "push", v[3][1][0][1])
        if v[0] == "item" and v[1] == own and v[2][0] == "slice" and v[2][2] == C(-1) \
                and v[2][1] in (NONE, C(0)):
            return (e.name, "pop", None)
        if contains(v, own) or e.name in ("entered_portals_stack", "entered_portals_counters_stack"):
            return (e.name, "other", "assign")
    return None


def effects(p):
    return [x for x in (effect(e) for e in events(p)) if x]


def is_stack_top(t):
    return top_of(t) == STACK


class Of:
    """Some attribute of a portal; two portals may or may not share its value."""

    def __init__(self, of, name):
        self.of, self.name = of, name

    def __eq__(self, other):
        raise TypeError("not known")

    __hash__ = None


class Machine:
    """Applies the extracted effects of a method to the variables kept at the level
    of the portal classes, over a few named portals."""

    def __init__(self, ctx, methods):
        self.ps = methods
        self.start = {}
        c = ctx.P.cls("BasicPortal")
        for st in c.node.body:
            t, v = None, None
            if isinstance(st, ast.Assign) and len(st.targets) == 1:
                t, v = st.targets[0], st.value
            elif isinstance(st, ast.AnnAssign):
                t, v = st.target, st.value
            if not isinstance(t, ast.Name) or v is None:
                continue
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and not v.args and not v.keywords and \
                    v.func.id in ("list", "dict"):
                self.start[t.id] = [] if v.func.id == "list" else {}
            else:
                try:
                    v = ast.literal_eval(v)
                except Exception:
                    continue
                if isinstance(v, (list, dict, int, type(None))):
                    self.start[t.id] = v
        self.start.pop("all_portals", None)
        # attributes of the portals that entering and leaving change
        self.written = {e.name for ps in methods.values() for p in ps for e in flat_events(p.events)
                        if e.kind in ("setattr", "delattr") and e.recv == SELF}

    def run(self, name, who, state):
        """The ways method `name` of portal `who` can end: (kind, value, state), or None if unknown."""
        out = []
        for p in self.ps[name]:
            r = self.path(p, who, state)
            if r == "unknown":
                return None
            if r is not None and r not in out:
                out.append(r)
        return out

    def path(self, p, who, state):
        import copy
        cur = copy.deepcopy(state)
        snaps = {n: [copy.deepcopy(v)] for n, v in cur.items()}
        assigned, results, shared = set(), {}, [UNK]

        class Fails(Exception):
            pass

        def var(t):
            if isinstance(t, tuple) and len(t) > 2 and t[0] == "attr" and t[2] in cur and \
                    (t[1][0] == "cls" or t[1] == SELF or t[1][0] == "typeof"):
                return t[2]
            return None

        def atom(t):
            if t == SELF:
                return who
            if t == ("cls", "BasicPortal"):
                return ("class", "BasicPortal")      # here, all portals are plain ones
            if t[0] == "typeof" or t[0] == "attr" and t[2] == "__class__":
                v = ev(t[1])
                return ("class", "BasicPortal") if isinstance(v, str) and v in PEOPLE else UNK
            if t[0] == "isinstance":
                v = ev(t[1])
                return True if isinstance(v, str) and v in PEOPLE and t[2] == "BasicPortal" else UNK
            if t in results:
                return results[t]
            n = var(t)
            if n:
                return snaps[n][0] if n in assigned else cur[n]
            if t[0] == "item" and var(t[1]):
                n = var(t[1])
                ver = t[3] if len(t) > 3 else 0
                box = snaps[n][ver] if n not in assigned and ver < len(snaps[n]) else snaps[n][0] if n in assigned else cur[n]
                if t[2][0] == "slice":
                    ks = [None if x is None else ev(x) for x in t[2][1:4]]
                    return UNK if UNK in ks else box[slice(*ks)] if isinstance(box, list) else UNK
                k = ev(t[2])
                if k is UNK:
                    return UNK
                try:
                    return box[k]
                except (IndexError, KeyError):
                    raise Fails()
                except TypeError:
                    return UNK
            if t[0] == "call" and t[1] == ("ext", "id") and len(t[2]) == 1:
                v = ev(t[2][0])
                return ("id", v) if isinstance(v, str) else UNK
            if t[0] == "call" and t[1][0] == "attr" and (var(t[1][1]) or t[1][1][0] == "item" and var(t[1][1][1])) and t[1][2] in ("count", "index", "get", "copy") and not t[3]:
                vs = [ev(x) for x in t[2]]
                if UNK in vs:
                    return UNK
                try:
                    return getattr(atom(t[1][1]), t[1][2])(*vs)
                except ValueError:
                    raise Fails()
                except Exception:
                    return UNK
            if t[0] == "attr":
                v = ev(t[1])
                return Of(v, t[2]) if isinstance(v, str) and v in PEOPLE and t[2] not in self.written else UNK
            if t[0] in ("eq", "is"):
                a, b = ev(t[1]), ev(t[2])
                if isinstance(a, Of) and isinstance(b, Of):
                    return True if (a.of, a.name) == (b.of, b.name) else shared[0]
                if isinstance(a, Of) or isinstance(b, Of):
                    return UNK
            if t[0] in ("any", "all") and len(t) == 3 and isinstance(t[1], tuple):
                src = ev(t[2])
                if not isinstance(src, list):
                    return UNK
                got = []
                for x in src:
                    for alt in t[1]:
                        if len(alt) != 3 or alt[0] or alt[1]:
                            return UNK
                        v = teval(alt[2], lambda y: x if y == ("elem", t[2]) else atom(y))
                        if v is UNK:
                            return UNK
                        got.append(bool(v))
                return any(got) if t[0] == "any" else all(got)
            return UNK

        def ev(t):
            return teval(t, atom)

        def changed(n):
            snaps[n].append(copy.deepcopy(cur[n]))
        try:
            for kind, x, b in timeline(p):
                if kind == "g":
                    v = ev(x)
                    if v is UNK:
                        free = True
                        for shared[0] in (True, False):
                            free = free and ev(x) is not UNK
                        shared[0] = UNK
                        if free:
                            continue                 # two portals may share this or not
                        if any(is_attr(y, n) for y in terms(x) for n in list(self.written) + list(cur)) or p.imprecise:
                            # what the library itself keeps track of, in a way that is not understood
                            return "unknown"
                        continue                     # depends on something else: possible either way
                    if isinstance(v, Of):
                        continue
                    if bool(v) != b:
                        return None
                    continue
                e = x
                if e.kind == "loop":
                    if any(var(y) for z in flat_events([e]) for y in [z.recv] if y):
                        return "unknown"
                    continue
                n = var(e.recv) if e.recv is not None and e.kind in ("call", "setitem", "delitem", "inplace") else None
                if e.kind == "setattr" and e.recv is not None and (e.recv[0] in ("cls", "typeof")) and e.name in cur:
                    v = ev(e.args["value"])
                    if v is UNK:
                        return "unknown"
                    cur[e.name] = copy.deepcopy(v)
                    assigned.add(e.name)
                    continue
                if n is None:
                    continue
                if n in assigned:
                    return "unknown"
                box = cur[n]
                try:
                    if e.kind == "setitem":
                        k, v = ev(e.args["key"]), ev(e.args["value"])
                        if k is UNK or v is UNK:
                            return "unknown"
                        box[k] = v
                        changed(n)
                    elif e.kind == "delitem":
                        if e.args["key"][0] == "slice":
                            ks = [None if y is None else ev(y) for y in e.args["key"][1:4]]
                            k = slice(*ks)
                            if UNK in ks:
                                return "unknown"
                        else:
                            k = ev(e.args["key"])
                        if k is UNK:
                            return "unknown"
                        del box[k]
                        changed(n)
                    elif e.kind == "call":
                        vs = [ev(y) for y in e.args.values()]
                        m = last(e)
                        if m in ("count", "index", "get", "copy", "__len__", "keys", "values", "items"):
                            continue
                        if any(v is UNK or isinstance(v, Of) for v in vs) or not hasattr(box, m):
                            return "unknown"
                        r = getattr(box, m)(*vs)
                        changed(n)
                        if e.res is not None:
                            results[e.res] = r
                except (IndexError, KeyError, ValueError):
                    raise Fails()
                except TypeError:
                    return "unknown"
            if p.kind == "raise":
                return ("raise", None, cur)
            return ("return", ev(p.value), cur)
        except Fails:
            return ("raise", None, cur)


PEOPLE = ("first", "second")


@rule("C01", "inverse", "what __exit__ does to the portal stack undoes what __enter__ did")
def c01_inverse(ctx):
    en = ctx.run("BasicPortal.__enter__", exc="none")
    ex = ctx.run("BasicPortal.__exit__", exc="none")
    if en.paths is None or ex.paths is None:
        ctx.check("enter/exit", None, en.where, "not analysable")
        return
    m = Machine(ctx, {"enter": en, "exit": ex})
    S = "entered_portals_stack"
    if not isinstance(m.start.get(S), list):
        ctx.check("stack", None, en.where, "the stack of portals is not a list")
        return
    facts = {k: [] for k in ("enter", "current", "undo", "refuse")}
    und = {k: 0 for k in facts}
    n = {k: 0 for k in facts}

    def path_of(blocks):
        return " inside ".join(reversed([f"the {b}" for b in blocks])) or "nothing"

    def seen(kind, ok, text):
        n[kind] += 1
        if ok is None:
            und[kind] += 1
        elif not ok:
            facts[kind].append(text)

    def walk(blocks, state, depth):
        for q in PEOPLE:
            if blocks and q != blocks[-1]:
                r = m.run("exit", q, state)
                if r is None:
                    seen("refuse", None, "")
                else:
                    bad = [x for x in r if x[0] != "raise" or x[2] != state]
                    seen("refuse", not bad and bool(r), f"leaving the {q} portal while the {blocks[-1]} one is current "
                         f"{'corrupts the stack' if any(x[0] == 'raise' for x in bad) else 'is not refused'}")
        if depth == 0:
            return
        for q in PEOPLE:
            r = m.run("enter", q, state)
            if r is None or not r:
                seen("enter", None, "")
                continue
            for kind, value, after in r:
                here = f"{path_of(blocks)} has been entered"
                if kind != "return":
                    seen("enter", False, f"entering the {q} portal fails when {here}")
                    continue
                seen("enter", value == q if value is not UNK and not isinstance(value, Of) else None,
                     f"__enter__ does not return the portal when {here}")
                st = after.get(S)
                top = st[-1] if st else None
                seen("current", top == q, f"after entering the {q} portal when {here} the current one is {top}")
                if top != q:
                    continue
                walk(blocks + (q,), after, depth - 1)
                b = m.run("exit", q, after)
                if b is None:
                    seen("undo", None, "")
                    continue
                for k2, v2, end in b:
                    if k2 != "return":
                        seen("undo", False, f"leaving the {q} portal fails after entering it when {here}")
                    else:
                        seen("undo", end == state, f"__exit__ of the {q} portal does not undo __enter__ when {here}: "
                             f"the stack was {state[S]} and is then {end[S]}")
                        # what was entered before can still be left
    walk((), m.start, 4)
    # very deep nesting
    for seq in (("first",) * 1100, ("first", "second") * 40):
        states, deep = [m.start], True
        for q in seq:
            x = m.run("enter", q, states[-1])
            if x is None or len(x) != 1 or x[0][0] != "return":
                deep = False
                break
            states.append(x[0][2])
        for k, q in reversed(list(enumerate(seq))) if deep else ():
            x = m.run("exit", q, states[k + 1])
            if x is None or len(x) != 1:
                break
            if x[0][0] != "return" or x[0][2] != states[k]:
                seen("undo", False, f"after {k + 1} nested blocks __exit__ of the {q} portal does not undo __enter__")
                break
    for k, what in (("enter", "entering returns the portal"), ("current", "the entered portal is the current one"),
                    ("undo", "leaving restores exactly the state before"),
                    ("refuse", "leaving a portal that is not the current one is refused and changes nothing")):
        where = en.where if k in ("enter", "current") else ex.where
        if facts[k]:
            ctx.ob(what, "violated", where, facts[k][0], n[k])
        else:
            ctx.ob(what, "undecided" if und[k] or not n[k] else "ok", where, what, n[k])


@rule("C01", "leave-always", "every portal class leaves the stack exactly once on every way out of __exit__")
def c01_leave(ctx):
    seen = set()
    for c in portal_classes(ctx):
        f = c.find("__exit__")
        if f is None or f.fq in seen:
            continue
        seen.add(f.fq)
        if f.cls.name == "BasicPortal":
            continue
        ps = ctx.run(f, cls=c, exc="all", base_exc=True, opaque=("BasicPortal.__exit__",))

        def left(p):
            n = len([e for e in events(p) if e.kind in ("with_exit", "call")
                     and e.name == "BasicPortal.__exit__"])
            n += len([x for x in effects(p) if x[:2] == ("entered_portals_stack", "pop")])
            if n == 0:
                return f"{c.name}.__exit__ can end without leaving the portal"
            return n == 1 or f"{c.name}.__exit__ leaves the portal {n} times"
        ctx.forall(f"{c.name}.__exit__", ps, left, "leaves the portal exactly once on every path",
                   need=2)
    seen = set()
    for c in portal_classes(ctx):
        f = c.find("__enter__")
        if f is None or f.fq in seen or f.cls.name == "BasicPortal":
            continue
        seen.add(f.fq)
        ps = ctx.run(f, cls=c, exc="none", opaque=("BasicPortal.__enter__",))

        def entered(p):
            n = len([e for e in events(p) if e.kind in ("with_enter", "call")
                     and e.name == "BasicPortal.__enter__"])
            n += len([x for x in effects(p) if x[:2] == ("entered_portals_stack", "push")])
            if p.kind != "return":
                return True
            return (n == 1 and p.value == SELF) or \
                f"{c.name}.__enter__ enters {n} times or does not return the portal"
        ctx.forall(f"{c.name}.__enter__", ps, entered, "enters exactly once and returns itself", need=1)


@rule("C01", "ownership", "only portal classes manipulate the portal stack")
def c01_owner(ctx):
    names = {"entered_portals_stack", "entered_portals_counters_stack"}
    owners = {c.fq for c in portal_classes(ctx)}
    muts = {"append", "pop", "extend", "insert", "remove", "clear", "reverse", "sort"}
    n = 0
    for f in ctx.P.all_functions():
        bad = None
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, ast.Attribute) and x.attr in names and isinstance(x.ctx, (ast.Store, ast.Del)):
                t = x
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                    isinstance(x.value, ast.Attribute) and x.value.attr in names:
                t = x
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in muts \
                    and isinstance(x.func.value, ast.Attribute) and x.func.value.attr in names:
                t = x
            if t is not None:
                n += 1
                if f.cls is None or f.cls.fq not in owners:
                    bad = t
        if bad is not None:
            ctx.check(f.qual, False, f.loc(bad), f"{f.qual} manipulates the portal stack directly")
    ctx.check("writers", True if n else None, "pythagoras", f"{n} writes to the stack, all inside portal classes", n)


@rule("C02", "no-swallow", "no context manager of the library suppresses an exception")
def c02(ctx):
    n = 0
    for c in sorted(ctx.P.classes.values(), key=lambda c: c.name):
        f = c.methods.get("__exit__")
        if f is None:
            continue
        n += 1
        pos = f.params()[0]
        et = pos[1] if len(pos) > 1 else None

        def facts(t, et=et):
            if et and t == ("isnone", ("sym", et)):
                return False
            return None
        ps = ctx.run(f, cls=c, exc="none", default="all", facts=facts)

        def falsy(p):
            if p.kind != "return":
                return True
            v = p.value
            if v in (NONE, FALSE) or (is_c(v) and not v[2]):
                return True
            if v[0] in ("c", "sym", "new", "cls", "fn", "not", "isnone") or v == SELF:
                r = teval(v, lambda t: UNK)
                if v[0] in ("not", "isnone") and r is UNK:
                    return f"{c.name}.__exit__ can return a true value: {tstr(v)}"
                return f"{c.name}.__exit__ returns {tstr(v)} and so can swallow the exception"
            if v[0] == "call" and v[1][0] == "fn":
                return None
            return f"{c.name}.__exit__ may return a true value ({tstr(v)})"
        ctx.forall(f"{c.name}.__exit__", ps, falsy, "returns a false value when an exception is passing",
                   need=1)
    for f in ctx.P.all_functions():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call):
                r = ctx.P.resolve_expr(f.mod, x.func)
                if r and r[0] == "ext" and r[1] in ("contextlib.suppress", "suppress"):
                    ctx.check(f"{f.qual}: suppress", False, f.loc(x), "contextlib.suppress used")
    for f in ctx.P.all_functions():
        if any("contextmanager" in ast.unparse(d) for d in f.node.decorator_list):
            for t in ast.walk(f.node):
                if isinstance(t, ast.Try) and any(isinstance(y, ast.Yield) for b in t.body for y in ast.walk(b)):
                    for h in t.handlers:
                        if not any(isinstance(y, ast.Raise) for y in ast.walk(h)):
                            ctx.check(f"{f.qual}: yield in try", False, f.loc(h),
                                      "a generator context manager swallows the exception")
    ctx.check("context managers", True if n >= 4 else None, "pythagoras", f"{n} context managers", n)


# ---------------------------------------------------------------- selection
def entered_term(t):
    if is_stack_top(t):
        return True
    return fn_name(t) in ("get_most_recently_entered_portal", "_most_recently_entered_portal")


def added_term(t):
    return fn_name(t) == "get_most_recently_added_portal"


def default_term(t):
    return t[0] == "call" and (t[1] == ("cls", "DefaultLocalPortal") or (
        fn_name(t) == "DefaultLocalPortal")) or (t[0] == "new" and t[1] == "DefaultLocalPortal")


@rule("C03", "precedence", "explicit portal, else innermost entered, else most recently created, else the default local one")
def c03(ctx):
    seen = set()
    for c in portal_classes(ctx):
        f = c.find("get_best_portal_to_use")
        if f is None:
            ctx.check(f"{c.name}.get_best_portal_to_use", False, c.loc(), "missing")
            continue
        if f.fq in seen:
            continue
        seen.add(f.fq)
        ps = ctx.run(f, cls=c, exc="none",
                     inline=("get_best_portal_to_use",),
                     opaque=("BasicPortal.get_most_recently_added_portal",
                             "BasicPortal._most_recently_entered_portal")
                     + tuple(k.name + ".get_most_recently_entered_portal" for k in portal_classes(ctx)))
        pn = f.params()[0][1]

        def atom(t, v, pn=pn):
            if t == sym(pn):
                return "EXPLICIT" if v["s"] else None
            if entered_term(t):
                return "ENTERED" if v["e"] else None
            if t == STACK:
                return ["x"] * v["e"]
            if t == ALL:
                return {x: x for x in range(v["a"])}
            if added_term(t):
                return "ADDED" if v["a"] else None
            return UNK

        def outcome(p, exp, pn=pn):
            if p.kind != "return":
                return f"raises instead of returning the {exp} portal"
            v = p.value
            kind = ("explicit" if v == sym(pn) else "entered" if entered_term(v) else
                    "added" if added_term(v) else "default" if default_term(v) else None)
            if kind is None:
                if v == NONE:
                    return f"returns None instead of the {exp} portal"
                if contains(v, ALL) and exp == "added":
                    return by_model(p, lambda m, v: v == list(m.known.values())[-1], "the portal used is")
                return None
            return kind == exp or f"returns the {kind} portal instead of the {exp} one"
        rows = []
        for s in (1, 0):
            for e in (2, 1, 0):
                for a in (3, 2, 1, 5000) if e else (2, 1, 0, 5000):
                    rows.append((f"explicit={s} entered={e} created={a}", dict(s=s, e=e, a=a),
                                 "explicit" if s else "entered" if e else "added" if a else "default"))
        ctx.table(f"{f.qual}", ps, rows, atom, outcome, "right portal selected")


@rule("C03", "innermost", "the most recently entered portal is the top of the stack")
def c03_inner(ctx):
    seen = set()
    plain = ctx.P.cls("BasicPortal")
    for c, f in [(c, c.find("get_most_recently_entered_portal")) for c in portal_classes(ctx)] + [
            (plain, plain.find("_most_recently_entered_portal"))]:
        if f is None or f.fq in seen:
            continue
        seen.add(f.fq)
        ps = ctx.run(f, cls=c, exc="none", inline=("get_most_recently_entered_portal",))

        def atom(t, v):
            if t == STACK:
                return ["x"] if v["e"] else []
            if is_stack_top(t):
                return "P" if v["e"] else UNK
            if t[0] == "call" and t[1] == ("ext", "issubclass"):
                return True
            return UNK

        def outcome(p, exp):
            if exp == "none":
                return p.kind == "return" and p.value == NONE
            if p.kind == "raise":
                return True        # wrong class of portal: refused
            if is_stack_top(p.value):
                return True
            if p.value == NONE or p.value[0] == "item":
                return f"returns {tstr(p.value)} instead of the innermost entered portal"
            return None
        ctx.table(f.qual, ps, [("nothing entered", dict(e=0), "none"),
                               ("portals entered", dict(e=1), "top")], atom, outcome,
                  "innermost entered portal")
        ctx.exists(f"{f.qual} returns", ps, lambda p: p.kind == "return" and is_stack_top(p.value),
                   "returns the top of the stack")


@rule("C03", "latest", "the most recently created portal is the last one registered")
def c03_latest(ctx):
    f = ctx.P.func("BasicPortal.get_most_recently_added_portal")
    ps = ctx.run(f, exc="none")

    def atom(t, v):
        if t == ALL:
            return {"k": 1} if v["n"] else {}
        if t[0] == "call" and t[1][0] == "attr" and t[1][1] == ALL and t[1][2] in ("keys", "values", "items") and not t[2]:
            return [1] if v["n"] else []
        return UNK

    def outcome(p, exp):
        if p.kind != "return":
            return "raises"
        v = p.value
        if exp == "none":
            return v == NONE or None
        if v == NONE:
            return "returns None although portals exist" if not any(teval(g, lambda t: atom(t, dict(n=1))) is UNK for g, _, _ in p.guards) else None
        if not contains(v, ALL):
            return None
        r = by_model(p, lambda m, v: v == list(m.known.values())[-1], "the most recently created portal is")
        if r is not None:
            return r
        st = list(subterms(v))
        rev = any(x == ("ext", "reversed") for x in st)
        nxt = any(x == ("ext", "next") for x in st)
        idx = [x[2][2] for x in st if isinstance(x, tuple) and x and x[0] == "item"
               and is_c(x[2]) and isinstance(x[2][2], int)]
        if (rev and nxt) or idx == [-1] and not rev or (rev and idx == [0]):
            return True
        if (nxt and not rev) or idx == [0] or (rev and idx == [-1]):
            return f"returns {tstr(v)}, which is not the last registered portal"
        return None
    ctx.table(f.qual, ps, [("no portal", dict(n=0), "none"), ("some portals", dict(n=1), "last")],
              atom, outcome, "last registered portal")
    registered(ctx)
    for c in portal_classes(ctx):
        i = c.methods.get("__init__")
        if i is None or c.name == "BasicPortal":
            continue
        par = next((k.find("__init__") for k in c.mro[1:] if isinstance(k, ClassInfo) and k.find("__init__")), None)
        ps = ctx.run(i, cls=c, exc="none", opaque=tuple(
            k.name + ".__init__" for k in portal_classes(ctx) if k is not c))

        def ups(p):
            if p.kind != "return":
                return True
            up = [e for e in events(p) if e.kind == "call" and last(e) == "__init__" and e.recv == SELF]
            if up:
                return True
            if c.name == "DefaultLocalPortal":
                return True      # the repeated initialisation of the singleton
            return f"{c.name}.__init__ does not initialise its base class"
        ctx.forall(f"{c.name}.__init__ initialises its base", ps, ups, "calls the base initialiser", need=1)


def registered(ctx):
    g = ctx.P.func("BasicPortal.__init__")
    ps = ctx.run(g, exc="none")

    def identity(k):
        if k == SELF or (k[0] == "call" and k[1] == ("ext", "id") and k[2] == (SELF,)):
            return True
        if is_c(k) or any(x[0] == "attr" and x[1] == SELF for x in terms(k)) or any(
                contains(k, sym(x)) for x in g.params()[0][1:]) or any(has_attr(k, x) for x in ("__name__", "base_dir", "root_dict")):
            return f"portals are registered under {tstr(k)}, which another portal can share"
        return None

    def registers(p):
        if p.kind != "return":
            return True
        for e in events(p):
            if e.kind == "setitem" and e.recv == ALL and e.args["value"] == SELF:
                return identity(e.args["key"])
            if e.kind == "call" and e.recv == ALL and last(e) == "setdefault" and e.args.get("1") == SELF:
                return identity(e.args.get("0", NONE))
        if any(contains(e.recv, ALL) for e in events(p) if e.recv is not None):
            return None
        return "a new portal is not registered"
    ctx.forall("BasicPortal.__init__ registers", ps, registers, "registers the portal under its identity", need=1)


@rule("C03", "order", "the order of the known portals is that of their creation")
def c03_order(ctx):
    n = 0
    for c in portal_classes(ctx):
        for name, f in c.methods.items():
            if name in ("__init__", "__new__", "_clear", "_clear_all") or not any(
                    isinstance(x, ast.Attribute) and x.attr == "all_portals" for x in ast.walk(f.node)):
                continue
            if all(h.name in ("__init__", "__new__", "_clear", "_clear_all") for h in homes(ctx, f, ("_clear", "_clear_all", "__init__"))):
                continue
            n += 1

            def leaves(p):
                for e in flat_events(p.events):
                    if e.recv is not None and unver(e.recv) == ALL and (e.kind in ("setitem", "delitem", "inplace") or e.kind == "call" and last(e) in (
                            "pop", "popitem", "clear", "update", "setdefault", "move_to_end", "__setitem__", "__delitem__")) or (
                            e.kind == "setattr" and e.name == "all_portals"):
                        return f"{f.qual} changes which portals are known, or their order"
                return True
            ctx.forall(f"{f.qual}: known portals", ctx.run(f, cls=c, exc="none"), leaves, "the known portals stay as they are")
    ctx.check("functions using the known portals", True if n else None, "pythagoras", f"{n} functions", n)


@rule("C04", "known", "every portal is known under a key of its own")
def c04_known(ctx):
    registered(ctx)


@rule("C03", "bound-portal", "an object is bound to the selected portal and keeps it")
def c03_bound(ctx):
    ps = ctx.run("PortalAwareClass.__init__", exc="none")

    def bound(p):
        if p.kind != "return":
            return True
        w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and "portal" in e.name]
        if not w:
            return "no portal is stored"
        v = w[-1].args["value"]
        if fn_name(v) == "get_best_portal_to_use":
            a = call_arg(v, "suggested_portal")
            return a == sym("portal") or f"the portal argument is not passed on ({tstr(a)})"
        if v == sym("portal"):
            return not consistent(p, lambda t: None if t == v else UNK) or \
                "no portal is selected for an object created without one"
        return None
    ctx.forall("PortalAwareClass.__init__", ps, bound, "stores the best portal for the given argument", need=1)
    seen = set()
    for c in ctx.P.subclasses(ctx.P.cls("PortalAwareClass")):
        f = c.find("portal")
        if f is None or f.fq in seen:
            continue
        seen.add(f.fq)
        ps = ctx.run(f, cls=c, exc="none", inline=("capture_portal", "portal"),
                     opaque=("BasicPortal._most_recently_entered_portal",
                             "BasicPortal.get_best_portal_to_use"))

        def atom(t, v):
            if t[0] == "hasattr" and t[1] == SELF and "portal" in t[2]:
                return v["h"] > 0
            if t[0] == "past":
                return atom(t[1], v)
            if t[0] == "attr" and t[1] == SELF and "portal" in t[2]:
                return "OWN" if v["h"] == 2 else None if v["h"] == 1 else UNK
            return UNK

        def outcome(p, exp):
            if p.kind == "raise":
                return None if exp == "captured" else "raises although a portal is bound"
            v = p.value
            own = v[0] == "attr" and v[1] == SELF and "portal" in v[2]
            if exp == "own":
                return own or f"returns {tstr(v)} instead of the portal the object is bound to"
            w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and "portal" in e.name]
            if not w:
                return "an unbound object is not bound to the current portal" if v == NONE or own else \
                    "an unbound object gets a portal each time, instead of being bound to one" if entered_term(v) or added_term(v) or has_call(
                        v, "get_best_portal_to_use", "get_most_recently_entered_portal") else None
            x = w[-1].args["value"]
            if v != x:
                return None
            return entered_term(x) or has_call(x, "get_best_portal_to_use", "get_most_recently_entered_portal") or None
        rows = [("bound", dict(h=2), "own")]
        if c.name == "PortalAwareClass" or any(has_call(x, "capture_portal") or calls(p, "capture_portal")
                                               for p in ps for x in (p.value,) if x):
            # a class may instead bind its objects when they are created or loaded
            rows += [("portal is None", dict(h=1), "captured"), ("never bound", dict(h=0), "captured")]
        ctx.table(f.qual, ps, rows, atom, outcome, "portal of an object")


@rule("C03", "constructors", "an object is bound to the portal passed to its constructor")
def c03_constructors(ctx):
    root = ctx.P.cls("PortalAwareClass")
    for c in ctx.P.subclasses(root):
        f = c.find("__init__")
        if f is None or c is root or "portal" not in f.params()[0] + f.params()[1]:
            continue
        ps = ctx.run(f, cls=c, exc="none", inline=("__init__",))

        def passed(t):
            if t == sym("portal"):
                return True
            if t in (("isnone", sym("portal")), ("is", sym("portal"), NONE)):
                return False
            return UNK

        def bound(p):
            if p.kind != "return" or not consistent(p, passed):
                return True
            w = [e for e in events(p) if e.kind == "setattr" and e.recv == SELF and e.name == "_portal"]
            if not w:
                return None
            v = w[-1].args["value"]
            while fn_name(v) == "get_best_portal_to_use":
                v = call_arg(v, "suggested_portal")
                if v is None:
                    return "the portal that was passed is not used"
            if v == sym("portal"):
                return True
            if v[0] == "sym" or any(contains(v, sym(x)) for x in (f.params()[0] + f.params()[1])[1:]):
                return None
            return f"bound to {tstr(v)} although a portal was passed"
        ctx.forall(f"{c.name}: passed portal", ps, bound, "bound to the portal that was passed", need=1)


# ---------------------------------------------------------------- enumeration
def gen_elements(v):
    """[(element term, source, guards)] of a returned collection, or None."""
    w = 0
    while True:
        v2 = strip_wrappers(v)
        if v2[0] == "call" and v2[1][0] in ("attr", "cellattr") and v2[1][2] in ("values", "copy") and not v2[2]:
            d = v2[1][1]
            if d[0] == "dict":
                out = []
                for p in d[1]:
                    if p[0] == "kveach":
                        out.append((p[2], p[3], p[4]))
                    elif p[0] == "kv":
                        out.append((p[2], None, ()))
                    else:
                        return None
                return out
            return [(("item", d, ("elem", d), 0), d, ())]
        if v2 == v:
            break
        v = v2
    if v[0] in ("list", "set", "tuple"):
        out = []
        for p in v[1]:
            if v[0] == "tuple":
                return None
            if p[0] == "each":
                out.append((p[1], p[2], p[3]))
            elif p[0] == "one":
                out.append((p[1], None, ()))
            elif p[0] == "*":
                s = gen_elements(p[1])
                if s is None:
                    return None
                out += s
            else:
                return None
        return out
    if v[0] == "attr":
        return [(("elem", v), v, ())]
    return None


def is_elem_of(t, cont):
    """t denotes a generic member (key or value) of cont"""
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] in ("elem",) and contains(x[1], cont):
            return True
    return False


class Model:
    """A small world of portals in which terms about the two registries are
    evaluated: what is known, in which order, and what is entered.  `shared` tells
    whether different portals have equal attributes (the same directory, say)."""

    def __init__(self, known, stack, shared):
        self.ids = {"P1": 30, "P2": 10, "P3": 20}
        self.known = {self.ids[x]: x for x in known}
        self.stack, self.shared = list(stack), shared
        self.env = []
        self.breaks = {}             # what is iterated -> when the iteration is left early
        self.prefix = False          # a collection filled in the same loop is what it holds so far
        self.ambiguous = False
        self.at = []                 # (what is being iterated, the elements before the current one)

    def look(self, t):
        for k, v in reversed(self.env):
            if k == t:
                return v
        return None

    def run(self, t):
        return teval(t, self.atom)

    def parts(self, items):
        """[(key, value)] of the parts of a collection, or UNK."""
        out = []
        for it in items:
            if it[0] == "one":
                v = self.run(it[1])
                if v is UNK:
                    return UNK
                out.append((v, v))
            elif it[0] == "kv":
                k, v = self.run(it[1]), self.run(it[2])
                if k is UNK or v is UNK:
                    return UNK
                out.append((k, v))
            elif it[0] in ("*", "**"):
                v = self.run(it[1])
                if v is UNK:
                    return UNK
                out += list(v.items()) if isinstance(v, dict) else [(x, x) for x in v]
            elif it[0] in ("each", "kveach"):
                n = 3 if it[0] == "kveach" else 2
                w = strip_wrappers(it[n])
                while w[0] == "list" and len(w[1]) == 1 and w[1][0][0] == "each" and w[1][0][1] == it[1]:
                    # an element of a comprehension is denoted by the element of what that one goes over
                    it = (*it[:n], w[1][0][2], (*w[1][0][3], *it[n + 1]), *it[n + 2:])
                    w = strip_wrappers(it[n])
                src = self.run(it[n])
                if src is UNK or not isinstance(src, (list, tuple, dict)):
                    return UNK
                so_far = next((xs for k, xs in reversed(self.at) if k == it[n]), None)
                if so_far is not None:
                    self.ambiguous = True      # filled before the loop, or along with it
                    if self.prefix:
                        src = so_far
                for nth, x in enumerate(src):
                    self.at.append((it[n], list(src)[:nth]))
                    self.env.append((("elem", it[n]), x))
                    self.env.append((("elem", strip_wrappers(it[n])), x))
                    self.env.append((("partial", it[1]) if n == 2 else ("partial", it[1], it[2]), out))
                    try:
                        left = False
                        for gs, effects_ in self.breaks.get(it[n], ()):
                            vs = [(self.run(g[0]), g[1]) for g in gs]
                            if any(v is UNK for v, _ in vs):
                                return UNK
                            if all(bool(v) == b for v, b in vs):
                                if effects_:
                                    return UNK
                                left = True
                        if left:
                            break
                        go = True
                        for g in it[n + 1]:
                            v = self.run(g[0])
                            if v is UNK:
                                return UNK
                            go = go and bool(v) == g[1]
                        if go:
                            k = self.run(it[1])
                            v = self.run(it[2]) if n == 3 else k
                            if k is UNK or v is UNK:
                                return UNK
                            out.append((k, v))
                    finally:
                        del self.env[-3:]
                        self.at.pop()
            else:
                return UNK
        return out

    def atom(self, t):
        if not isinstance(t, tuple) or not t:
            return UNK
        if t[0] == "elem":
            for k, v in reversed(self.env):
                if k == t:
                    return v
            return UNK
        if unver(t) == STACK:
            return list(self.stack)
        if unver(t) == ALL:
            return dict(self.known)
        if t[0] in ("list", "set", "dict") and len(t[1]) == 1 and t[1][0][0] in ("each", "kveach"):
            # the collection as it has been built so far
            so = self.look(("partial", *t[1][0][1:(2 if t[1][0][0] == "each" else 3)]))
            if so is not None:
                return dict(so) if t[0] == "dict" else list(dict.fromkeys(v for _, v in so)) if t[0] == "set" else [v for _, v in so]
        if t[0] in ("list", "set"):
            ps = self.parts(t[1])
            if ps is UNK:
                return UNK
            vs = [v for _, v in ps]
            try:
                return vs if t[0] == "list" else list(dict.fromkeys(vs))
            except TypeError:
                return UNK
        if t[0] == "dict":
            ps = self.parts(t[1])
            if ps is UNK:
                return UNK
            try:
                return dict(ps)
            except TypeError:
                return UNK
        if t[0] in ("any", "all") and len(t) == 3 and isinstance(t[1], tuple):
            src = self.run(t[2])
            if src is UNK:
                return UNK
            got = []
            w = strip_wrappers(t[2])
            names = {("elem", t[2]), ("elem", w)}
            if w[0] in ("list", "set") and len(w[1]) == 1 and w[1][0][0] == "each" and w[1][0][1][0] == "elem":
                names.add(w[1][0][1])
            for nm in list(names):
                again = {y for y in terms(t[1]) if y[0] == "elem" and len(y) == 3 and y[:2] == nm}
                if again:
                    names -= {nm}
                    names |= again
            for x in src:
                k = len(self.env)
                self.env += [(nm, x) for nm in names]
                try:
                    for alt in t[1]:
                        if len(alt) != 3 or alt[0]:
                            return UNK
                        gs = [(self.run(g[0]), g[1]) for g in alt[1]]
                        if any(v is UNK for v, _ in gs):
                            return UNK
                        if not all(bool(v) == b for v, b in gs):
                            continue
                        v = self.run(alt[2])
                        if v is UNK:
                            return UNK
                        got.append(bool(v))
                finally:
                    del self.env[k:]
            return any(got) if t[0] == "any" else all(got)
        if t[0] == "isinstance" and t[2] == "DefaultLocalPortal":
            v = self.run(t[1])
            return v == "P3" if isinstance(v, str) and v in self.ids else UNK
        if t[0] == "isinstance" or (t[0] == "call" and t[1] == ("ext", "issubclass")):
            return True
        if t[0] == "typeof":
            v = self.run(t[1])
            return ("kind", "DefaultLocalPortal" if v == "P3" else "another portal") if isinstance(v, str) and v in self.ids else UNK
        if t[0] == "cls":
            return ("kind", t[1])
        if t[0] == "tuple" and len(t) == 2:
            vs = [self.run(x) for x in t[1]]
            return UNK if any(v is UNK for v in vs) else tuple(vs)
        if t[0] == "item" and t[2][0] == "slice":
            v, ends = self.run(t[1]), [None if x in (None, C(None)) else self.run(x) for x in t[2][1:]]
            if not isinstance(v, (list, tuple)) or not all(x is None or type(x) is int for x in ends) or ends[2] == 0:
                return UNK
            return v[slice(*ends)]
        if t[0] == "item":
            v, k = self.run(t[1]), self.run(t[2])
            if v is UNK or k is UNK or not isinstance(v, (list, tuple, dict)):
                return UNK
            try:
                return v[k]
            except (LookupError, TypeError):
                return UNK
        if t[0] == "attr":
            if t[2] == "__class__":
                return self.atom(("typeof", t[1]))
            v = self.run(t[1])
            if isinstance(v, tuple) and v and v[0] == "kind":
                return v[1] if t[2] in ("__name__", "__qualname__") else UNK
            if isinstance(v, str) and v in self.ids or isinstance(v, tuple) and v and v[0] == "of":
                return ("of", t[2]) if self.shared else ("of", v, t[2])
            return UNK
        if t[0] == "call" and t[1][0] == "ext" and not t[3]:
            n, vs = t[1][1], [self.run(x) for x in t[2]]
            if UNK in vs or not vs:
                return UNK
            try:
                if n == "id":
                    return self.ids[vs[0]] if isinstance(vs[0], str) else UNK
                if n in ("list", "tuple", "iter", "sorted", "reversed", "set", "frozenset", "dict.fromkeys", "max", "min", "len", "dict") and len(vs) == 1:
                    v = vs[0]
                    if n == "dict":
                        return dict(v)
                    if n == "len":
                        return len(v)
                    v = list(v)
                    if n in ("list", "tuple", "iter"):
                        return v
                    if n == "reversed":
                        return v[::-1]
                    if n == "dict.fromkeys":
                        return dict.fromkeys(v)
                    if n in ("set", "frozenset"):
                        return list(dict.fromkeys(v))
                    if not all(isinstance(x, int) for x in v):
                        return UNK
                    return sorted(v) if n == "sorted" else max(v) if n == "max" else min(v)
                if n == "next":
                    v = list(vs[0])
                    return v[0] if v else vs[1] if len(vs) > 1 else UNK
            except Exception:
                return UNK
            return UNK
        if t[0] == "call" and t[1][0] in ("attr", "cellattr") and not t[3] and t[1][2] in (
                "values", "keys", "items", "copy", "get", "count", "index"):
            r, vs = self.run(t[1][1]), [self.run(x) for x in t[2]]
            if r is UNK or UNK in vs:
                return UNK
            try:
                v = getattr(r, t[1][2])(*vs)
                return v if not isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))) else list(v)
            except Exception:
                return UNK
        return UNK


KNOWN = [("P1",), ("P1", "P2"), ("P1", "P2", "P3")]


def worlds(entered=True):
    """Small worlds: which portals are known, which are entered in which order."""
    for known in KNOWN:
        stacks = [(), ("P1",), ("P2",), ("P2", "P1"), ("P1", "P2", "P1"), ("P1", "P2", "P3"), ("P3", "P1", "P3", "P1"),
                  ("P2", "P3", "P2", "P1"), ("P3", "P1", "P2", "P1")]
        for st in stacks:
            if set(st) <= set(known):
                for shared in (False, True):
                    yield Model(known, st, shared)


def told(m):
    return f"known: {', '.join(m.known.values())}; entered: {', '.join(m.stack) or 'none'}" + (
        "; with equal directories" if m.shared else "")


def by_model(p, want, what):
    """Evaluates the value of a path in every small world that takes it: True, a
    text describing what is wrong, or None when it is not understood."""
    got, ambiguous = model_of(p, want, what, False)
    if ambiguous and got is not True:
        again, _ = model_of(p, want, what, True)
        if not isinstance(again, str):
            return again
    return got


def model_of(p, want, what, prefix):
    ok = True
    ambiguous = False
    breaks = {}
    for l in loops(p.events):
        for k, xs, gs in l.x["iters"]:
            if k != "next" and l.x["iter"] is not None:
                breaks.setdefault(l.x["iter"], []).append((gs, k != "break" or any(e.kind in ("call", "setitem") for e in xs)))
    for m in worlds():
        m.breaks, m.prefix = breaks, prefix
        known = True
        here = True
        for c, b, _ in p.guards:
            v = m.run(c)
            if v is UNK:
                # the condition under which a loop was left is dealt with where its elements are enumerated
                known = known and (c[0] == "isnone" or any(c == g[0] for gs, _ in sum(breaks.values(), []) for g in gs))
            elif bool(v) != b:
                here = False
        if not here:
            continue
        v = m.run(p.value)
        ambiguous = ambiguous or m.ambiguous
        if v is UNK or not known:
            ok = None
            continue
        if isinstance(v, dict):
            v = list(v)
        if not want(m, v):
            return f"{what} {v if v not in (None, []) else 'nothing'} ({told(m)})", ambiguous
    return ok, ambiguous


def all_of_it(s):
    """What is enumerated, copies and reversals left out."""
    while True:
        s2 = strip_wrappers(s)
        if s2[0] == "item" and s2[2][0] == "slice" and all(x in (None, C(None)) for x in s2[2][1:3]) \
                and s2[2][3] in (None, C(None), C(1), C(-1)):
            s2 = s2[1]
        if s2 == s:
            return unver(s)
        s = s2


@rule("C04", "noncurrent", "the non-current portals are all known portals but the current one")
def c04(ctx):
    seen = set()
    for c in portal_classes(ctx):
        f = c.find("get_noncurrent_portals")
        if f is None or f.fq in seen:
            continue
        seen.add(f.fq)
        ps = ctx.run(f, cls=c, exc="none", inline=("get_noncurrent_portals", "get_most_recently_entered_portal",
                                                   "get_entered_portals", "get_most_recently_added_portal"))

        def mk(val):
            def atom(t):
                if t == STACK:
                    return ["ENT", "CUR"] if val["cur"] else []
                if is_stack_top(t):
                    return "CUR" if val["cur"] else UNK
                if t[0] in ("set", "list") and len(t) == 2 and contains(t, STACK):
                    return members(t, atom)
                if t[0] == "call" and t[1] == ("ext", "id") and len(t[2]) == 1:
                    return atom(t[2][0])
                if t[0] in ("elem", "item", "call") and is_elem_of(t, ALL) and fn_name(t) is None:
                    return {"cur": "CUR", "oth": "OTH", "ent": "ENT"}[val["el"]] if "el" in val else UNK
                if t[0] == "call" and t[1] == ("ext", "issubclass"):
                    return True
                if t[0] == "isinstance":
                    return True
                return UNK
            return atom
        for label, val, inc in (("no current portal", dict(cur=0, el="oth"), True),
                                ("the current portal", dict(cur=1, el="cur"), False),
                                ("another portal", dict(cur=1, el="oth"), True),
                                ("a portal entered further down the stack", dict(cur=1, el="ent"), True)):
            cand = [p for p in ps.returns() if consistent(p, mk({"cur": val["cur"]}))]

            def ok(p):
                g = gen_elements(p.value)
                if g is None:
                    return None
                g = [x for x in g if x[1] is None or contains(x[1], ALL) or contains(x[0], ALL)]
                if not g:
                    return "the known portals are not enumerated"
                got = False
                for el, src, gs in g:
                    vals = [teval(q[0], mk(val)) for q in gs]
                    if any(v is UNK for v in vals):
                        return None
                    if all(bool(v) == q[1] for v, q in zip(vals, gs)):
                        got = True
                return got == inc or (f"{label} is " + ("missing" if inc else "included"))
            ctx.forall(f"{f.qual}: {label}", ps, ok, "enumeration of non-current portals", paths=cand, need=1)
        ctx.forall(f"{f.qual}: in small worlds", ps, lambda p: p.kind != "return" or by_model(
            p, lambda m, v: isinstance(v, (list, tuple)) and sorted(v) == sorted(x for x in m.known.values() if x not in m.stack[-1:]),
            "the non-current portals are"), "every known portal but the current one, once", need=1)


def members(t, atom):
    """The members of a collection built from one whose members are known."""
    out = []
    for it in t[1]:
        if it[0] == "one":
            v = teval(it[1], atom)
            if v is UNK:
                return UNK
            out.append(v)
        elif it[0] == "each":
            src = teval(it[2], atom)
            if src is UNK:
                return UNK
            for x in src:
                def inner(q, x=x):
                    if q[0] == "call" and q[1] == ("ext", "id") and len(q[2]) == 1:
                        q = q[2][0]
                    return x if q == ("elem", it[2]) else atom(q)
                gs = [(teval(g[0], inner), g[1]) for g in it[3]]
                if any(v is UNK for v, _ in gs):
                    return UNK
                if all(bool(v) == b for v, b in gs):
                    v = teval(it[1], inner)
                    if v is UNK:
                        return UNK
                    out.append(v)
        else:
            return UNK
    return out


@rule("C04", "entered", "the entered portals are all portals on the stack, each once")
def c04_entered(ctx):
    seen = set()
    for c in portal_classes(ctx):
        f = c.find("get_entered_portals")
        if f is None or f.fq in seen:
            continue
        seen.add(f.fq)
        ps = ctx.run(f, cls=c, exc="none", inline=("get_entered_portals", "get_most_recently_entered_portal",
                                                   "get_noncurrent_portals", "get_most_recently_added_portal"))

        def ok(p):
            for t in terms(p.value):
                if t[0] in ("list", "set"):
                    for x in t[1]:
                        if x[0] == "each" and contains(x[1], STACK) and any(
                                q[0][0] in ("is", "eq") and any(y[0] == "typeof" and contains(y, STACK) for y in q[0][1:])
                                for q in x[3]):
                            return "entered portals are filtered by class"
            g = gen_elements(p.value)
            if g is None:
                return None
            src = [x for x in g if (x[1] is not None and contains(x[1], STACK)) or contains(x[0], STACK)]
            if not src:
                return "the portal stack is not enumerated"
            for el, s, gs in src:
                for q in gs:
                    for k in (1, 2, 3):
                        v = teval(q[0], lambda t: k if t[0] == "elem" and is_attr(unver(t[1]), "entered_portals_counters_stack") else UNK)
                        if v is not UNK and bool(v) != q[1]:
                            return f"a portal entered {k} times in a row is left out"
                if s is not None and all_of_it(s) != STACK:
                    if any(isinstance(x, tuple) and x and x[0] == "slice" for x in subterms(s)):
                        return "only a part of the stack is enumerated"
                    return None
                if any(isinstance(q[0], tuple) and q[0][0] == "isinstance" for q in gs):
                    return "entered portals are filtered by class"
                if gs and not all(q[0][0] in ("in",) or (q[0][0] == "any") for q in gs):
                    return None
            return True
        ctx.forall(f.qual, ps, ok, "enumerates every entered portal", paths=ps.returns(), need=1)

        def once(p):
            if by_model(p, lambda m, v: isinstance(v, (list, tuple)) and len(v) == len(set(v)), "") is True:
                return True
            v = strip_wrappers(p.value)
            if v[0] == "call" and v[1][0] in ("attr", "cellattr") and v[1][2] == "values":
                return True
            if v[0] == "set" or has_set(p.value):
                return True
            if v[0] == "attr" and v == STACK:
                return "a portal entered several times is enumerated several times"
            g = gen_elements(p.value)
            if g and all(x[2] for x in g if x[1] is not None):
                return True
            if g and any(x[1] is not None and not x[2] for x in g):
                return "a portal entered several times is enumerated several times"
            return None
        ctx.forall(f"{f.qual}: in small worlds", ps, lambda p: p.kind != "return" or by_model(
            p, lambda m, v: isinstance(v, (list, tuple)) and sorted(v) == sorted(set(m.stack)),
            "the entered portals are"), "every entered portal, once", need=1)
        ctx.forall(f"{f.qual}: once", ps, once, "each entered portal once", paths=ps.returns(), need=1)


def has_set(t):
    return any(isinstance(x, tuple) and x and x[0] == "call" and x[1] in (
        ("ext", "set"), ("ext", "frozenset"), ("ext", "dict.fromkeys")) for x in subterms(t))


# ---------------------------------------------------------------- reset
@rule("C05", "class-state", "a global reset restores every class level variable of the portal classes")
def c05(ctx):
    P = ctx.P
    pcs = portal_classes(ctx)
    n = 0
    for c in pcs:
        for name, init in sorted(c.attrs.items()):
            if name.startswith("__") and name.endswith("__"):
                continue
            if init is None:
                continue
            mutable = isinstance(init, (ast.Dict, ast.List, ast.Set, ast.Call))
            written = []
            for m, w in P.inst_attr_writes.get(name, []):
                if isinstance(w.value, ast.Name):
                    r = P.resolve(m, w.value.id)
                    if (r and r[0] == "class" and r[1].is_sub(c)) or w.value.id == "cls":
                        written.append(w)
            if not mutable and not written:
                continue
            n += 1
            f = c.find("_clear_all")
            if f is None:
                ctx.check(f"{c.name}.{name}", False, c.loc(), "no _clear_all")
                continue
            for k in [c] + [d for d in P.subclasses(c) if d is not c and "_clear_all" in d.methods]:
                g = k.find("_clear_all")
                ps = ctx.run(g, cls=k, exc="none", inline=("_clear_all",))

                def resets(p):
                    if p.kind != "return":
                        return f"{k.name}._clear_all raises"
                    ws = [e for e in events(p) if e.kind == "setattr" and e.name == name
                          and e.recv[0] == "cls"]
                    cl = [e for e in events(p) if e.kind == "call" and last(e) == "clear"
                          and e.recv is not None and is_attr(e.recv, name)]
                    if cl and not ws:
                        return True
                    if not ws and isinstance(init, ast.Constant) and any(
                            told_initial(g, b, c.name, name, init.value) for g, b, _ in p.guards):
                        return True       # it is what it was at first, and left alone
                    if not ws:
                        return f"{k.name}._clear_all does not reset {c.name}.{name}"
                    if not any(e.recv in (("cls", c.name),) for e in ws):
                        if k is not c:
                            return f"{k.name}._clear_all resets {name} on {tstr(ws[-1].recv)}, not on {c.name}"
                    v = ws[-1].args["value"]
                    if isinstance(init, ast.Constant):
                        return v == C(init.value) or f"{name} is reset to {tstr(v)}"
                    if isinstance(init, ast.Call) and v[0] == "c":
                        return f"{name} is reset to {tstr(v)}, which is not what it was at first"
                    if isinstance(init, (ast.Dict, ast.List)):
                        if v[0] in ("dict", "list", "item") and any(is_attr(unver(t), name) for t in terms(v)):
                            return f"a part of {name} is kept"
                        return (v[0] in ("dict", "list") and not v[1]) or (
                            v[0] == "call" and fn_name(v) in ("dict", "list", "OrderedDict")) or None
                    return True
                # a counter-singleton class that resets on `cls`
                ctx.forall(f"{c.name}.{name} by {k.name}._clear_all", ps, resets,
                           f"{c.name}.{name} is reset", need=1)
    # what is put on a portal class without having been declared there
    known = {a for c in pcs for a in c.attrs} | {a for c in pcs for a in c.methods}
    for name, ws in sorted(P.inst_attr_writes.items()):
        if name in known or name.startswith("__") and name.endswith("__"):
            continue
        for m, w in ws:
            r = P.resolve(m, w.value.id) if isinstance(w.value, ast.Name) else None
            if not (r and r[0] == "class" and r[1] in pcs):
                continue
            ks = [k for k in pcs if k is r[1] or k.is_sub(r[1])]
            done = [any(isinstance(x, ast.Attribute) and x.attr == name for k in ks for x in ast.walk(k.find("_clear_all").node))]
            ctx.check(f"{r[1].name}.{name}", True if all(done) else False, f"{m.rel}:{w.lineno}",
                      f"{name}, kept at the level of the class, is reset")
    ctx.check("class level state", True if n >= 5 else None, "pythagoras", f"{n} class level variables", n)


def told_initial(g, b, cls, name, init):
    """The condition g, being b, says that a class level variable has its initial value."""
    while g[0] == "not":
        g, b = g[1], not b
    at = unver(g[1]) if g[0] in ("truthy", "isnone") and len(g) > 1 else None
    if at is None or at[0] != "attr" or at[2] != name or at[1] not in (("cls", cls), ("sym", "cls")):
        return False
    return (g[0] == "isnone" and b and init is None) or (
        g[0] == "truthy" and isinstance(init, bool) and b == init)


@rule("C05", "instances", "a global reset clears every portal before forgetting it")
def c05_inst(ctx):
    f = ctx.P.func("BasicPortal._clear_all")
    ps = ctx.run(f, exc="handlers")

    def clears(p):
        if p.kind != "return":
            return True
        forgot = False
        if any(e.kind == "except" for e in p.events) and any(
                x.kind == "call" and last(x) == "_clear" and failed(x) and x.loops for x in p.events):
            return "if clearing one portal fails, the others are forgotten uncleared"
        for e in p.events:
            if e.kind == "loop":
                its = e.x["iter"]
                if its is not None and contains(its, ALL):
                    if forgot:
                        return "the portals are forgotten before they are cleared"
                    for k, evs, gs in e.x["iters"]:
                        cs = [x for x in evs if x.kind == "call" and last(x) == "_clear"]
                        if not cs:
                            return "a portal is not cleared"
                        if k not in ("next", "raise", "exc"):
                            return "after the first portal the others are not cleared"
                    m = Model(KNOWN[-1], ("P2", "P1"), False)
                    v = m.run(its)
                    if v is not UNK:
                        v = [m.known.get(x, x) for x in v]
                        lost = [x for x in m.known.values() if x not in v]
                        if lost:
                            return f"only {v} of the portals {list(m.known.values())} are cleared"
                    return True
            if e.kind == "setattr" and e.name == "all_portals":
                forgot = True
            if e.kind == "call" and last(e) == "clear" and e.recv == ALL:
                forgot = True
        return "the portals are not cleared"
    ctx.forall("BasicPortal._clear_all", ps, clears, "clears every known portal", need=1)
    def storage(k, a):
        t = ast.unparse(k.annots[a]) if a in k.annots else ""
        return "Dict" in t
    for c in portal_classes(ctx):
        cl = c.find("_clear")
        own = {}
        for k in c.mro:
            i = k.methods.get("__init__") if hasattr(k, "methods") else None
            for x in ast.walk(i.node) if i is not None else ():
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                        isinstance(x.value, ast.Name) and x.value.id == i.params()[0][0] \
                        and storage(k, x.attr):
                    own[x.attr] = x
        if not own:
            continue
        ps = ctx.run(cl, cls=c, exc="none", inline=("_clear",))
        for a in sorted(own):
            def cleared(p, a=a):
                if p.kind != "return":
                    return True
                ws = [e for e in events(p) if e.kind == "setattr" and e.name == a and e.recv == SELF]
                ds = [e for e in events(p) if e.kind == "delattr" and e.name == a]
                if ds or (ws and ws[-1].args["value"] in (NONE, FALSE, C(0))) or (
                        ws and ws[-1].args["value"][0] in ("dict", "list")):
                    return True
                if ws:
                    return f"{c.name}._clear keeps a part of {a}" if any(is_attr(unver(t), a, SELF) for t in terms(ws[-1].args["value"])) else None
                return f"{c.name}._clear leaves {a} behind"
            ctx.forall(f"{c.name}._clear {a}", ps, cleared, f"clears {a}", need=1)


# ---------------------------------------------------------------- pickling
@rule("C06", "refuse", "live resources refuse to be pickled")
def c06(ctx):
    P = ctx.P
    todo = list(portal_classes(ctx)) + [P.cls("OverlappingMultiDict")]

    def refused(p):
        if p.kind != "raise":
            return "nothing is refused"
        name = p.value[1] if isinstance(p.value, tuple) and p.value[0] == "exc" else None
        if name is None:
            return None
        return name == "NotAllowedError" or f"{name} is raised, not NotAllowedError"
    for c in todo:
        for m in ("__getstate__", "__setstate__"):
            f = c.find(m)
            if f is None:
                ctx.check(f"{c.name}.{m}", False, c.loc(), f"{c.name} has no {m} that refuses pickling")
                continue
            ps = ctx.run(f, cls=c, exc="none")
            ctx.forall(f"{c.name}.{m}", ps, refused, f"{c.name}.{m} must refuse with NotAllowedError", need=1)
        for k in c.mro:
            if isinstance(k, ClassInfo):
                for m in ("__reduce__", "__reduce_ex__", "__getnewargs__", "__getnewargs_ex__",
                          "__copy__", "__deepcopy__"):
                    f = k.methods.get(m)
                    if f is not None:
                        ps = ctx.run(f, cls=c, exc="none")
                        ctx.forall(f"{c.name}.{m}", ps, lambda p: p.kind == "raise",
                                   f"{c.name}.{m} bypasses the refusal to pickle")
    names = {c.name for c in todo}
    bad = []

    def copies(mod, f):
        if isinstance(f, ast.Attribute):
            f = f.value
            if isinstance(f, ast.Name):
                return f.id == "copyreg" or any(
                    isinstance(i, ast.Import) and any(a.asname == f.id and a.name == "copyreg" for a in i.names)
                    for i in ast.walk(mod.tree))
            return False
        return any(isinstance(i, ast.ImportFrom) and i.module == "copyreg" and any(
            (a.asname or a.name) == f.id for a in i.names) for i in ast.walk(mod.tree)) \
            if isinstance(f, ast.Name) else False
    for mod in P.mods.values():
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in (
                    "pickle", "constructor", "add_extension") and copies(mod, x.func) \
                    and any(isinstance(y, ast.Name) and y.id in names for a in x.args for y in ast.walk(a)):
                bad.append((mod, x))
            t = x.targets[0] if isinstance(x, ast.Assign) else None
            if isinstance(t, ast.Subscript) and ast.unparse(t.value).endswith("dispatch_table") and any(
                    isinstance(y, ast.Name) and y.id in names for y in ast.walk(t.slice)):
                bad.append((mod, x))
    for mod, x in bad:
        ctx.ob("other ways to pickle", "violated", f"{mod.rel}:{x.lineno}",
               "a reducer is registered for a class that refuses to be pickled")
    if not bad:
        ctx.check("other ways to pickle", True, "pythagoras", "no reducer is registered with copyreg")
    c = P.cls("OverlappingMultiDict")
    for m in ("__getitem__", "__setitem__", "__delitem__"):
        f = c.find(m)
        if f is None:
            continue
        ps = ctx.run(f, cls=c, exc="none")
        ctx.forall(f"{c.name}.{m}", ps, lambda p: p.kind == "raise", "direct item access is refused", need=1)


# ---------------------------------------------------------------- default portal
def under_home(t):
    """The components of a path given as a term; ("~", …) below the home directory, ("?", …) elsewhere."""
    if t[0] == "c":
        return tuple(t[2].split("/")) if t[1] == "str" and t[2] else ("?",)
    if t[0] == "op" and t[1] == "/":
        a, b = under_home(t[2]), under_home(t[3])
        return None if a is None or b is None else a + b
    if t[0] == "cat" and t[1]:
        a = under_home(t[1][0])
        if a is not None and all(x[0] == "c" for x in t[1][1:]):
            more = "".join(str(x[2]) for x in t[1][1:])
            parts = [x for x in more.split("/")]
            a = a[:-1] + (a[-1] + parts[0],) + tuple(x for x in parts[1:] if x)
            return a
        return None
    if t[0] == "call":
        n = fn_name(t)
        if n == "default_base_dir":
            return ("~", ".pythagoras", ".default_portal")
        if n == "home" or n == "expanduser" and any(C("~") in terms(x) for x in t[2] + (t[1],)):
            if n == "home":
                return ("~",)
            whole = t[2][0] if t[2] else t[1][1]
            return under_home(whole)
        if n in ("getenv",) or t[1] == ("ext", "os.environ.get"):
            return ("<environment>",)
        if n in ("cwd", "getcwd", "gettempdir", "mkdtemp", "getpid", "uuid4", "time", "gethostname"):
            return (f"<{n}>",)
        if n in ("str", "fspath", "abspath", "realpath", "normpath", "Path", "PosixPath") and len(t[2]) == 1 and not t[3]:
            return under_home(t[2][0])
        if n in ("join", "Path") and t[2] and (n == "Path" or t[1][0] == "ext"):
            parts = [under_home(x) for x in t[2]]
            return None if None in parts else sum(parts, ())
        if n in ("resolve", "absolute", "as_posix", "__str__", "__fspath__") and t[1][0] == "attr":
            return under_home(t[1][1])
        if n == "joinpath" and t[1][0] == "attr":
            parts = [under_home(t[1][1])] + [under_home(x) for x in t[2]]
            return None if None in parts else sum(parts, ())
    if t[0] == "item" and t[1] == ("ext", "os.environ"):
        return ("~",) if t[2] == C("HOME") else ("<environment>",)
    if t[0] == "attr" and t[2] == "parent":
        a = under_home(t[1])
        return a[:-1] if a and len(a) > 1 else None
    return None


@rule("C45", "singleton", "the default local portal is created at most once")
def c45(ctx):
    c = ctx.P.cls("DefaultLocalPortal")
    f = c.methods.get("__new__")
    if f is None:
        ctx.check("DefaultLocalPortal.__new__", False, c.loc(), "no singleton logic")
        return
    ps = ctx.run(f, cls=c, exc="none")
    inst = set()
    for p in ps:
        for e in events(p):
            if e.kind == "setattr" and e.recv == ("cls", c.name):
                inst.add(e.name)
    if len(inst) != 1:
        ctx.check("instance variable", None if inst else False, f.loc(),
                  "the created instance is not remembered")
        return
    iv = next(iter(inst))
    var = ("attr", ("cls", c.name), iv)

    def atom(t, v):
        if t == var:
            return "INST" if v["i"] else None
        if t[0] == "hasattr" and t[2] == iv:
            return True
        return UNK

    def outcome(p, exp):
        if p.kind != "return":
            return "raises"
        if exp == "old":
            if p.value != var:
                return "the existing instance is not returned"
            return not [e for e in events(p) if e.kind == "setattr" and e.name == iv] or None
        w = [e for e in events(p) if e.kind == "setattr" and e.name == iv]
        return (len(w) == 1 and w[0].args["value"] == p.value) or "the new instance is not remembered"
    ctx.table("DefaultLocalPortal.__new__", ps, [("exists", dict(i=1), "old"), ("first", dict(i=0), "new")],
              atom, outcome, "singleton")
    i = ctx.P.func("DefaultLocalPortal.__init__")
    ps = ctx.run(i, cls=c, exc="none", opaque=tuple(k.name + ".__init__" for k in portal_classes(ctx)[:-1]))

    def inits(p):
        return [e for e in events(p) if e.kind == "call" and last(e) == "__init__"]
    first = [p for p in ps.returns() if inits(p)]
    again = [p for p in ps.returns() if not inits(p)]

    def once(p):
        n = [e for e in inits(p)]
        if any(e.loops for e in n):
            return None
        return len(n) == 1 or "the portal is set up more than once"
    ctx.forall("set up once", ps, once, "one call sets the portal up once", paths=first)
    ctx.exists("initialised once", ps, lambda p: p in first, "the first call initialises the portal")
    ctx.exists("not initialised again", ps, lambda p: p in again,
               "a repeated call must not initialise the portal again")
    # the state written on the first call must steer later calls to the no-op path
    kls = ("cls", c.name)

    def at_name(w, base, name):
        if base == SELF and ("attr", SELF, name) in w:
            return w["attr", SELF, name]
        return w.get(("attr", kls, name)) if base in (SELF, kls, ("typeof", SELF)) else None
    for p in first:
        w = {}
        for e in events(p):
            if e.kind == "setattr" and e.recv in (("cls", c.name), SELF) and not e.loops:
                w[("attr", e.recv, e.name)] = e.args["value"]

        def after(t):
            if t[0] == "past":
                t = t[1]
            if t[0] == "hasattr":
                return True if at_name(w, t[1], t[2]) is not None else UNK
            if t[0] == "attr":
                new = at_name(w, t[1], t[2])
                if new is not None:
                    return teval(new, lambda x: 0 if x[0] == "attr" and x[1:] == t[1:] else UNK)
            return UNK
        reads = {t for q in first for g in q.guards for t in terms(g[0]) if t[0] == "attr" and t[1][0] in ("sym", "cls", "typeof")}
        hass = any(t[0] == "hasattr" for q in first for g in q.guards for t in terms(g[0]))
        if not w and first and again and reads and not hass and all(unver(t)[1] == kls and t[2] in c.attrs for t in reads) and not any(
                e.kind == "setattr" and e.name in {t[2] for t in reads} for q in ctx.run(f, cls=c, exc="none") for e in events(q)):
            ctx.ob("repeat is a no-op", "violated", i.loc(), "that the portal was set up is not remembered", 1, p.show())
        bad = [q for q in first if w and q.guards and consistent(q, after)]
        good = [q for q in again if consistent(q, after)]
        if bad:
            ctx.ob("repeat is a no-op", "violated", i.loc(),
                   "after the first initialisation a repeated call initialises the portal again", 1, p.show())
        else:
            ctx.check("repeat is a no-op", True if good else None, i.loc(),
                      "a repeated call finds the portal initialised")

    def dir_ok(p):
        for e in inits(p):
            rd = e.args.get("root_dict")
            if rd is None:
                return None
            if rd == NONE:
                return True
            d = call_arg(rd, "base_dir", 0) if rd[0] == "call" and fn_name(rd) == "FileDirDict" else rd
            if d is None:
                return None
            if d[0] == "call" and fn_name(d) == "default_base_dir":
                return True
            return is_home(d)
        return True

    def is_home(t):
        r = under_home(t)
        if r is None:
            return None
        return r == ("~", ".pythagoras", ".default_portal") or f"it lives in {'/'.join(r)}"
    def there(p):
        ms = [e for e in events(p) if e.kind == "call" and last(e) in ("mkdir", "makedirs")]
        if p.kind != "return" or not ms:
            return True
        if any(fn_name(t) in ("exists", "is_dir", "isdir") for g in p.guards for t in terms(g[0])):
            return True
        for e in ms:
            if e.args.get("exist_ok") in (None, FALSE) and len(e.args) < 3:
                return "it fails if the default directory exists"
            if last(e) == "mkdir" and e.args.get("parents") in (None, FALSE) and len(ms) == 1 and len(e.args) < 3:
                return "it fails if the directory above the default one does not exist"
        return True
    d = ctx.P.func("BasicPortal.default_base_dir")
    ctx.forall("default_base_dir is made", ctx.run(d, exc="none"), there, "the default directory is made if needed")
    ctx.forall("default_base_dir", ctx.run(d, exc="none"),
               lambda p: is_home(p.value) if p.kind == "return" else "there is no default directory",
               "the default directory is ~/.pythagoras/.default_portal", need=1)
    ctx.forall("default location", ps, dir_ok, "the default portal lives in the default directory", paths=first)
    # a reset makes a new one possible
    k = c.find("_clear_all")
    new = ctx.run(f, cls=c, exc="none")
    pk = ctx.run(k, cls=c, exc="none", opaque=tuple(x.name + "._clear_all" for x in portal_classes(ctx) if x is not c))
    watched = {}
    for q in list(ps) + list(new):
        for g, _, _ in q.guards:
            for t in terms(g):
                if isinstance(t, tuple) and t and t[0] == "attr" and t[1] in (("cls", c.name), SELF) and \
                        t[2] not in ("__class__",):
                    watched[t[2]] = True

    # what is written on the instance only is gone with the instance
    written = [e for q in list(ps) + list(new) for e in events(q) if e.kind == "setattr" and e.name in watched]
    own = {n for n in watched if n not in c.attrs and
           any(e.name == n for e in written) and all(e.recv == SELF for e in written if e.name == n)}

    def made_new(p):
        if p.kind != "return":
            return "the reset fails"
        w = {}
        for e in events(p):
            if e.kind in ("setattr", "delattr") and e.recv == ("cls", c.name) and e.name in watched:
                if e.loops:
                    return None
                w[e.name] = e.args.get("value") if e.kind == "setattr" else None
        lost = [n for n in watched if n not in w and n not in own]
        if lost:
            return f"{lost[0]} survives a reset: no new default portal is set up" if not p.imprecise else None

        def at(t):
            if t[0] == "past":
                t = t[1]
            if t[0] == "hasattr" and t[1] == SELF and t[2] in own:
                return False
            if t[0] == "attr" and t[1] in (("cls", c.name), SELF) and w.get(t[2]) is not None:
                return teval(w[t[2]], lambda x: UNK)
            return UNK
        if not any(consistent(q, at) for q in first):
            return "the next default portal is not set up after a reset"
        if any(consistent(q, at) and q.guards for q in again if q.kind == "return"):
            return "the next default portal may not be set up after a reset"
        made = [q for q in new if q.kind == "return" and q.value != var]
        if not any(consistent(q, at) for q in made) or any(consistent(q, at) for q in new if q.kind == "return" and q.value == var):
            return "the former default portal is returned after a reset"
        return True
    ctx.forall("reset", pk, made_new, "a reset makes a new default portal possible", need=1)
