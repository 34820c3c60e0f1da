"""Package manager, top level functions, descriptions, decorators, environment (C49-C54)."""
import ast
import builtins
from .base import *
from .ordinary import ext_call, function_classes
from .pure import cls_call
from .portals import portal_classes

RUNNERS = ("run", "check_call", "check_output", "call", "Popen")


def kwarg(t, name):
    return next((v for k, v in t[3] if k == name), None)


# ---------------------------------------------------------------- C49
def pip_runs(p):
    return [e for e in flat_events(p.events) if e.kind == "call" and e.res is not None and ext_call(e.res, *RUNNERS)
            and e.res[1][1].startswith("subprocess")]


def imports_of(p, *names):
    return [e for e in flat_events(p.events) if e.kind == "call" and ext_call(e.res, *names)]


def same_command(ctx, f, rows, build):
    """On every row exactly one command is run, and it is the expected one."""
    ps = ctx.run(f, exc="none")

    def atom(t, v):
        if t[0] == "sym" and t[1] in v:
            return v[t[1]]
        if t == ("ext", "sys.executable") or (t[0] == "attr" and t[2] == "executable"):
            return "PYTHON"
        return UNK

    def outcome(p, exp):
        rs = pip_runs(p)
        if len(rs) != 1:
            return "no command is run" if not rs else "more than one command is run"
        r = rs[0].res
        cmd = r[2][0] if r[2] else kwarg(r, "args")
        if cmd is None:
            return None
        got = teval(cmd, lambda t: atom(t, exp))
        if got is UNK:
            if not any(x == ("ext", "sys.executable") for x in terms(cmd)):
                return "pip of another interpreter is used"
            return None
        want = build(exp)
        if not isinstance(got, (list, tuple)):
            return None
        if got and got[0] != "PYTHON":
            return "pip of another interpreter is used"
        if sorted(got) == sorted(want) and set(got[:4]) == set(want[:4]):
            return True
        return f"the command is {' '.join(map(str, got))} instead of {' '.join(want)}"
    ctx.table(f"{f.qual}: command", ps, [(str(v), v, v) for v in rows], atom, outcome, "the command for these arguments")

    def strict(p):
        for e in pip_runs(p):
            r = e.res
            n = r[1][1].split(".")[-1]
            if n in ("check_call", "check_output"):
                continue
            ck = kwarg(r, "check")
            if n == "run" and ck == TRUE:
                continue
            if any(contains(g[0], r) or has_attr(g[0], "returncode") for g in p.guards) or any(
                    x.kind == "call" and last(x) in ("check_returncode", "wait", "poll") for x in flat_events(p.events)):
                return None
            if ck is not None and ck != FALSE and not any(x[0] == "call" and x[1] != ("ext", "bool") for x in terms(ck)):
                for v in (None, True, False, "", "v"):
                    at = lambda t: v if t[0] == "sym" else UNK
                    k = teval(ck, at)
                    if k is not UNK and not k and consistent(p, at):
                        return "a failure of pip goes unnoticed"
            return "a failure of pip goes unnoticed" if ck in (None, FALSE) else None
        return True
    ctx.forall(f"{f.qual}: failures", ps, strict, "a failing pip is reported", need=1)
    pe = ctx.run(f, exc="all")

    def escapes(p):
        bad = [e for e in flat_events(p.events) if failed(e) and e.kind == "call" and ext_call(e.res, *RUNNERS)]
        if not bad:
            return True
        return p.kind == "raise" or "an exception of running pip is swallowed"
    ctx.forall(f"{f.qual}: exceptions", pe, escapes, "an exception of pip reaches the caller", need=1)
    return ps


@rule("C49", "install", "exactly the requested package and version is installed, and imported")
def c49_install(ctx):
    f = ctx.P.func("install_package")
    a = f.params()[0]
    rows = [{a[0]: "pkg", a[1]: u, a[2]: v} for u in (False, True) for v in (None, "1.2")]
    ps = same_command(ctx, f, rows, lambda v: ["PYTHON", "-m", "pip", "install"] + (["--upgrade"] if v[a[1]] else []) + [
        v[a[0]] + ("==" + v[a[2]] if v[a[2]] else "")])

    def imported(p):
        if p.kind != "return":
            return True
        evs = list(flat_events(p.events))
        ims = [i for i, e in enumerate(evs) if e.kind == "call" and ext_call(e.res, "import_module", "__import__")]
        rs = [i for i, e in enumerate(evs) if e.kind == "call" and ext_call(e.res, *RUNNERS)]
        if not ims:
            return "the installed package is not imported"
        if evs[ims[-1]].res[2] and evs[ims[-1]].res[2][0] != sym(a[0]):
            return "something else than the package is imported"
        return bool(rs) and ims[-1] > rs[-1] or "the package is imported before it is installed"
    ctx.forall("import", ps, imported, "the package is imported after its installation", need=1)
    pe = ctx.run(f, exc="all")

    def fails(p):
        bad = [e for e in flat_events(p.events) if failed(e) and e.kind == "call" and ext_call(e.res, "import_module", "__import__")]
        return not bad or p.kind == "raise" or "a package that can't be imported counts as installed"
    ctx.forall("import fails", pe, fails, "a package that can't be imported is an error", need=1)


@rule("C49", "uninstall", "exactly the requested package is removed, and it is checked that it is gone")
def c49_uninstall(ctx):
    f = ctx.P.func("uninstall_package")
    a = f.params()[0]
    same_command(ctx, f, [{a[0]: "pkg"}], lambda v: ["PYTHON", "-m", "pip", "uninstall", "-y", v[a[0]]])
    ps = ctx.run(f, exc="protected")

    def gone(p):
        evs = list(flat_events(p.events))
        rs = [i for i, e in enumerate(evs) if e.kind == "call" and ext_call(e.res, *RUNNERS)]
        probes = [(i, e) for i, e in enumerate(evs) if e.kind == "call" and ext_call(e.res, "import_module", "reload", "find_spec", "__import__")]
        if not rs:
            return True if p.kind == "raise" else None
        after = [e for i, e in probes if i > rs[-1]]
        if p.kind == "raise" and not after:
            return True
        if any(failed(e) for e in after):
            return p.kind == "return" or "a package that is gone is reported as a failure"
        if p.kind == "return":
            if any(ext_call(e.res, "find_spec") for e in after):
                return None
            return "a package that can still be imported counts as removed" if after or not probes else None
        if any(ext_call(e.res, "import_module") for e in after) and not any(ext_call(e.res, "reload") for e in after) and not any(
                e.kind in ("delitem",) or e.kind == "call" and last(e) in ("invalidate_caches", "pop") for e in evs):
            return "a package that was imported before always counts as still there"
        return True
    ctx.forall("verification", ps, gone, "success only if the package can't be imported any more", need=2)


# ---------------------------------------------------------------- C50
@rule("C50", "initialize", "initialize resets everything, then creates and enters one swarming portal")
def c50_init(ctx):
    f = ctx.P.func("initialize")
    a = f.params()[0]
    ps = ctx.run(f, exc="none", inline=("_clear_all",))
    # everything any reset of a portal class restores
    state = set()
    for c in portal_classes(ctx):
        g = c.methods.get("_clear_all")
        if g is None:
            continue
        for p in ctx.run(g, cls=c, exc="none", inline=("_clear_all",)):
            state |= {e.name for e in events(p) if e.kind == "setattr" and e.recv[0] == "cls"}
    # and everything creating a portal changes in a class
    names = {c.name for c in portal_classes(ctx)} | {"cls"}
    for c in portal_classes(ctx):
        for m in ("__new__", "__init__"):
            g = c.methods.get(m)
            for n in ast.walk(g.node) if g is not None else ():
                for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else ():
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in names:
                        state.add(t.attr)

    def ok(p):
        if p.kind != "return":
            return "initialize fails"
        evs = p.events
        made = [i for i, e in enumerate(evs) if e.kind == "call" and e.res is not None and any(
            cls_call(e.res, c.name) for c in portal_classes(ctx))]
        if len(made) != 1:
            return f"{len(made)} portals are created"
        i = made[0]
        port = evs[i].res
        if not cls_call(port, "SwarmingPortal"):
            return "a portal of another kind is created"
        got = {e.name for e in evs[:i] if e.kind == "setattr" and e.recv[0] == "cls"}
        got |= {e.recv[2] for e in evs[:i] if e.kind == "call" and last(e) == "clear" and e.recv is not None and e.recv[0] == "attr"}
        if "all_portals" not in got:
            return "the known portals are not forgotten before the new one is created"
        got |= {g[1][2] for g, b, _ in p.guards if not b and g[0] == "truthy" and g[1][0] == "attr" and g[1][1][0] == "cls"}
        if state - got:
            return f"the reset leaves {', '.join(sorted(state - got))} as it is"
        if any(e.kind == "setattr" and e.recv[0] == "cls" for e in evs[i:]):
            return "the state is reset after the portal was created"
        if evs[i].args.get("root_dict") != sym(a[0]):
            return "the portal is not in the given directory"
        if evs[i].args.get("n_background_workers") != C(3):
            return "the portal does not have three background workers"
        ent = [e for e in evs[i:] if e.kind == "with_enter" and e.recv == port or e.kind == "call" and last(e) == "__enter__" and e.recv == port]
        ext = [e for e in evs[i:] if e.kind == "with_exit" and e.recv == port or e.kind == "call" and last(e) == "__exit__" and e.recv == port]
        if len(ent) != 1 or ext:
            return "the portal is not left entered"
        return described(p, port)
    ctx.forall("initialize", ps, ok, "one swarming portal, entered, and nothing else", need=1)


def described(p, port):
    v = p.value
    if v[0] == "call" and fn_name(v) == "describe" and contains(v[1], port) or v[0] == "call" and fn_name(v) == "describe" and v[2] and v[2][0] == port:
        return True
    return "the description of the portal is not returned" if v in (NONE, port) or not has_call(v, "describe") else None


def untouched(p, port):
    for e in flat_events(p.events):
        if e.kind == "call" and last(e) in ("_clear_all", "_clear", "__exit_all__"):
            return "connecting resets portals"
        if e.kind == "setattr" and e.recv is not None and e.recv[0] == "cls" and e.name in (
                "all_portals", "entered_portals_stack", "entered_portals_counters_stack", "most_recently_created_portal"):
            return "connecting resets portals"
    ent = [e for e in p.events if e.kind == "with_enter" or e.kind == "call" and last(e) == "__enter__"]
    ext = [e for e in p.events if e.kind == "with_exit" or e.kind == "call" and last(e) == "__exit__"]
    if len(ent) != len(ext):
        return "connecting changes the current portal"
    return True


@rule("C50", "connect", "connecting creates exactly the portal asked for")
def c50_connect(ctx):
    f = ctx.P.func("connect_to_local_portal")
    a = f.params()[0]
    ps = ctx.run(f, exc="none", inline=("_clear_all",))

    def made(p):
        return [e for e in p.events if e.kind == "call" and e.res is not None and any(cls_call(e.res, c.name) for c in portal_classes(ctx))]

    def local(p):
        if p.kind != "return":
            return "connecting fails"
        m = made(p)
        if len(m) != 1 or not cls_call(m[0].res, "SwarmingPortal"):
            return "not exactly one swarming portal is created"
        rd, nw = m[0].args.get("root_dict"), m[0].args.get("n_background_workers")

        def given(t, name, default=UNK):
            if t == sym(name):
                return True
            for v in ((7, 0) if name == a[1] else ("V", None) if default is not UNK else ("V",)):
                at = lambda x: v if x == sym(name) else UNK
                if consistent(p, at):
                    g = teval(t, at) if t is not None else None
                    if g is UNK:
                        return None
                    if g != (v if v is not None else default):
                        return False
            return True
        r = given(rd, a[0])
        if r is not True:
            return "the portal is not in the given directory" if r is False else None
        r = given(nw, a[1])
        if r is not True:
            return "the portal does not have the given number of workers" if r is False else None
        u = untouched(p, m[0].res)
        return u if u is not True else described(p, m[0].res)
    ctx.forall("connect_to_local_portal", ps, local, "the portal asked for", need=1)
    d = f.node.args.defaults
    ctx.check("defaults", len(d) == 2 and isinstance(d[0], ast.Constant) and d[0].value is None
              and isinstance(d[1], ast.Constant) and d[1].value == 3 or (None if len(d) != 2 else False), f.loc(),
              "default directory and three workers by default")
    f = ctx.P.func("connect_to_default_portal")
    ps = ctx.run(f, exc="none", inline=("_clear_all",))

    def default(p):
        if p.kind != "return":
            return "connecting fails"
        m = made(p)
        if not m:
            return "no default portal" if not has_call(p.value, "describe") else None
        if any(not cls_call(e.res, "DefaultLocalPortal") for e in m):
            return "another portal than the default one is created"
        u = untouched(p, m[0].res)
        return u if u is not True else described(p, m[0].res)
    ctx.forall("connect_to_default_portal", ps, default, "the default portal", need=1)


@rule("C50", "describe", "every known portal is described, in order, numbered if there are several")
def c50_describe(ctx):
    f = ctx.P.func("describe")
    ps = ctx.run(f, exc="none")
    ALL = ("attr", ("cls", "BasicPortal"), "all_portals")

    def atom(t, v):
        t = unver(t)
        if ext_call(t, "len") and contains(t[2][0], ALL) and one_to_one(t[2][0]):
            return v
        if t == ALL or (t[0] == "call" and fn_name(t) in ("values", "list", "keys", "items", "tuple") and contains(t, ALL)):
            return list(range(v))
        return UNK

    def whole(p):
        """Frames concatenated: one per known portal, each with its number."""
        if p.kind != "return":
            return "describing fails"
        v = p.value
        if fn_name(v) != "concat":
            return "not every portal is described"
        src = v[2][0] if v[2] else kwarg(v, "objs")
        ls = [e for e in p.events if e.kind == "loop" and e.x["iter"] is not None and contains(e.x["iter"], ALL)]
        if src is not None and src[0] == "call" and ext_call(src, "reversed", "sorted", "set", "filter"):
            return "the descriptions are out of order" if not ext_call(src, "filter") else "some portals are left out"
        if src is not None and src[0] == "item" and src[2][0] == "slice" and all(map(is_c, src[2][1:4])):
            lo, hi, st = (x[2] for x in src[2][1:4])
            if st is not None and st < 0:
                return "the descriptions are out of order"
            if hi is not None or lo or (st or 1) != 1:
                return "some portals are left out"
        if src is None or src[0] != "list":
            return None
        each = [x for x in src[1] if x[0] == "each"]
        if not each or len(each) != len(src[1]):
            return None
        x = each[0]
        if len(each) == 1 and x[3]:
            return "some portals are left out"
        if len(each) > 1:
            for n in (0, 1, 2):
                ok = [[(teval(g[0], lambda t: n if isinstance(t, tuple) and t and t[0] == "idx" else UNK), g[1]) for g in y[3]]
                      for y in each]
                if any(v is UNK for y in ok for v, b in y) or any(y[2] != x[2] or fn_name(y[1]) != fn_name(x[1]) for y in each):
                    return None
                hit = sum(all(bool(v) == b for v, b in y) for y in ok)
                if hit != 1:
                    return "some portals are left out" if not hit else "some portals are described twice"
        if not contains(x[2], ALL):
            return "not the known portals are described"
        for t in terms(x[2]):
            if t[0] == "item" or ext_call(t, "reversed", "islice", "set", "sorted"):
                return "some portals are left out or out of order"
        if fn_name(x[1]) not in ("describe", "assign", "insert"):
            return None
        num, missing = [], []
        for l in ls:
            for k, evs, gs in l.x["iters"]:
                if k in ("break", "return"):
                    return "some portals are left out"
                here = [e for e in evs if e.kind == "call" and last(e) == "insert" or e.kind == "setitem"]
                num += here
                if not here:
                    missing.append(gs)
        if not num and fn_name(x[1]) == "describe":
            return "the portals are not numbered"
        for gs in missing if num else ():
            for n in (0, 1, 2):
                vs = [(teval(g[0], lambda t: n if isinstance(t, tuple) and t and t[0] == "idx" else UNK), g[1]) for g in gs]
                if any(v is UNK for v, b in vs):
                    return None
                if all(bool(v) == b for v, b in vs):
                    return "not every portal is numbered"
        for e in num:
            vals = list(e.args.values())
            got = [n for n in (numbers(t) for t in vals) if n is not None]
            if not got:
                return "the portals are not numbered in order" if not any(
                    isinstance(y, tuple) and y and y[0] in ("mu", "idx") for t in vals for y in subterms(t)) else None
            if [0, 1, 2] not in got:
                return "the portals are not numbered in order, from 0"
        return True

    def numbers(t):
        """The values a term takes in the first three rounds of the loop, or None."""
        if not any(isinstance(y, tuple) and y and y[0] in ("mu", "idx") for y in subterms(t)):
            return None
        mus = {y for y in subterms(t) if isinstance(y, tuple) and y and y[0] == "mu"}
        out, now = [], {}
        for n in range(3):
            for m in mus:
                vals = ps.it.mus.get(m, ())
                first = [teval(v, lambda y: UNK) for v in vals if not contains(v, m)]
                step = [v for v in vals if contains(v, m)]
                if len(first) != 1 or len(step) != 1:
                    return None
                now[m] = first[0] if n == 0 else teval(step[0], lambda y: now[m] if y == m else UNK)
                if now[m] is UNK:
                    return None
            v = teval(t, lambda y: now[y] if y in now else n if isinstance(y, tuple) and y and y[0] == "idx"
                      else 3 if ext_call(y, "len") and contains(y, ALL) else UNK)
            if v is UNK:
                return None
            out.append(v)
        return out

    many = [p for p in ps if consistent(p, lambda t: atom(t, 3))]
    ctx.forall("several portals", ps, whole, "all of them, numbered", paths=many, need=1)
    ph = ctx.run(f, exc="handlers")
    ctx.forall("failing portals", ph, lambda p: p.kind != "return" or not any(
        x.kind == "call" and last(x) == "describe" and failed(x) for x in flat_events(p.events)) or "some portals are left out",
        "nothing is left out silently", need=0)
    two = [p for p in ps if consistent(p, lambda t: atom(t, 2))]
    ctx.forall("two portals", ps, whole, "both of them, numbered", paths=two, need=1)

    def single(p):
        if p.kind != "return":
            return "describing fails"
        v = p.value
        if fn_name(v) == "describe":
            return contains(v, ALL) or None
        if fn_name(v) == "concat":
            return whole(p) is True or "the portal is not described"
        return None
    one = [p for p in ps if consistent(p, lambda t: atom(t, 1))]
    ctx.forall("one portal", ps, single, "its description", paths=one, need=1)


def one_to_one(t):
    """Has a collection made from another one the same number of members?"""
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] in ("set", "list", "dict") and len(x) == 2 and isinstance(x[1], tuple):
            for it in x[1]:
                if it and it[0] in ("each", "kveach"):
                    k = it[1]
                    while k[0] == "call" and k[1] == ("ext", "id") and k[2]:
                        k = k[2][0]
                    if it[-1] or x[0] != "list" and k[0] not in ("elem", "item"):
                        return False
    return True


def has_idx(t):
    return any(isinstance(x, tuple) and x and x[0] == "idx" for x in subterms(t)) or (
        isinstance(t, tuple) and t and t[0] == "mu")


# ---------------------------------------------------------------- C51
def frames(t):
    """Rows [(type, label, value, each source or None, guards)] of a description, or None."""
    if fn_name(t) in ("reset_index", "copy"):
        return frames(t[1][1] if t[1][0] == "attr" else t[2][0])
    if fn_name(t) == "concat":
        src = t[2][0] if t[2] else kwarg(t, "objs")
        if src is None or src[0] not in ("list", "tuple"):
            return None
        out = []
        for x in src[1]:
            if src[0] == "tuple":
                x = ("one", x)
            if x[0] == "one":
                r = frames(x[1])
            elif x[0] == "*":
                r = frames(("call", ("ext", "pandas.concat"), (x[1],), ()))
            elif x[0] == "each":
                r = frames(x[1])
                r = None if r is None else [y[:3] + ((x[2], x[3]),) for y in r]
            else:
                r = None
            if r is None:
                return None
            out += r
        return out
    if fn_name(t) == "DataFrame":
        d = dict_parts(t[2][0] if t[2] else (kwarg(t, "data") or ("?",)))
        if d is None or d[1] or not {"type", "parameter", "value"} <= set(d[0]):
            return None
        if set(d[0]) != {"type", "parameter", "value"}:
            return "columns"
        cols = {}
        for k in ("type", "parameter", "value"):
            v = d[0][k]
            its = seq_items(v)
            cols[k] = its
            if its is None:
                if v[0] in ("list", "tuple"):
                    return None
                cols[k] = [v]
        n = max(len(c) for c in cols.values())
        for k, c in cols.items():
            if len(c) == 1:
                cols[k] = c * n
            elif len(c) != n:
                return None
        return [(a, b, c, None) for a, b, c in zip(cols["type"], cols["parameter"], cols["value"])]
    return None


def own_attr(t, *names):
    t = unver(t)
    return any(is_attr(t, n, SELF) for n in names)


def length_of(t, ok):
    """A number of entries: True, 'text' or None."""
    t = unver(t)
    if ext_call(t, "len") and len(t[2]) == 1:
        x = strip_wrappers(unver(t[2][0]), ("list", "tuple", "iter", "sorted"))
        while x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("keys",) and not x[2]:
            x = unver(x[1][1])
        return ok(x)
    if t[0] == "c":
        return False
    return None


def is_subdict(x, *tail):
    """self.crash_history.get_subdict(tail)"""
    if not (x[0] == "call" and fn_name(x) == "get_subdict" and contains(x[1], ("attr", SELF, "crash_history"))):
        if x[0] == "attr" and x[1] == SELF:
            return False
        if x[0] == "call" and fn_name(x) == "get_subdict" and x[1][0] == "attr" and unver(x[1][1])[0] == "attr" and unver(x[1][1])[1] == SELF:
            return False
        return None
    its = seq_items(x[2][0]) if x[2] else None
    if its is None:
        return None
    if len(its) != len(tail):
        return False
    for a, b in zip(its, tail):
        if b is None:
            if fn_name(a) != "current_date_gmt_string":
                # a parameter or a default: not taken at the time of the call
                return False if is_c(a) or a[0] == "sym" or (a[0] == "default" and "(" in a[1]) or (
                    a[0] == "item" and has_call(a, "current_date_gmt_string")) else None
        elif a != C(b):
            return False
    return True


def joined(t, ok):
    t = unver(t)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[1][1][0] == "c" and len(t[2]) == 1:
        x = strip_wrappers(unver(t[2][0]), ("list", "tuple", "iter"))
        while x[0] == "call" and x[1][0] == "attr" and x[1][2] == "keys" and not x[2]:
            x = unver(x[1][1])
        if x[0] == "item" and x[2][0] == "slice":
            return False
        if x[0] == "list" and len(x[1]) == 1 and x[1][0][0] == "each":
            e = x[1][0]
            if e[3]:
                return False
            if unver(e[1])[0] == "elem":
                x = unver(e[2])
            elif ext_call(e[1], "str") and unver(e[1][2][0])[0] == "elem":
                x = unver(e[2])
        return ok(x)
    return None


def expected_rows(kind):
    KF = ("attr", SELF, "known_functions")
    if kind == "BasicPortal":
        def backend(t):
            t = unver(t)
            if is_attr(t, "__name__"):
                b = unver(t[1])
                x = b[1] if b[0] == "typeof" or is_attr(b, "__class__") else (b[2][0] if ext_call(b, "type") else None)
                if x is not None:
                    return own_attr(x, "root_dict") or (False if x == SELF or x[0] == "attr" and x[1] == SELF else None)
            if t[0] == "c" or any(x[0] in ("attr", "item") and unver(x)[2] in ("__mro__", "__bases__", "__base__", "__module__") for x in terms(t) if len(x) > 2):
                return False
            return None
        return [("Disk", "Base directory", lambda t: True if is_attr(unver(t), "base_dir") and own_attr(unver(t)[1], "root_dict") else None),
                ("Disk", "Backend type", backend)]
    if kind == "LoggingPortal":
        return [("Disk", "Exceptions, total", lambda t: length_of(t, lambda x: is_subdict(x, "__CATCH_ALL__"))),
                ("Disk", "Exceptions, today", lambda t: length_of(t, lambda x: is_subdict(x, "__CATCH_ALL__", None)))]
    if kind == "DataPortal":
        return [("Disk", "Values, total", lambda t: length_of(t, lambda x: own_attr(x, "value_store") or (False if x[0] == "attr" else None))),
                ("Runtime", "Probability of checks", lambda t: own_attr(t, "_p_consistency_checks", "p_consistency_checks") or (
                    None if t[0] == "call" else False))]
    if kind == "AutonomousCodePortal":
        return [("Runtime", "Islands", lambda t: length_of(t, lambda x: own_attr(x, "known_functions") or None)),
                ("Runtime", "Default island", lambda t: own_attr(t, "default_island_name", "_default_island_name") or (None if t[0] == "call" else False)),
                ("Runtime", "All islands", lambda t: joined(t, lambda x: own_attr(x, "known_functions") or None)),
                "islands"]
    if kind == "PureCodePortal":
        return [("Disk", "Cached execution results", lambda t: length_of(t, lambda x: own_attr(x, "execution_results") or (False if x[0] == "attr" else None))),
                ("Disk", "Execution queue size", lambda t: length_of(t, lambda x: own_attr(x, "execution_requests") or (False if x[0] == "attr" else None)))]
    if kind == "SwarmingPortal":
        return [("Runtime", "Background workers", lambda t: own_attr(t, "n_background_workers") or (None if t[0] == "call" else False))]
    return []


def island_rows(rs):
    """The rows for every island."""
    KF = ("attr", SELF, "known_functions")
    count, names = [0, 0, 0], [0, 0, 0]
    for ty, lab, val, src in rs:
        it, gs = src
        if not contains(it, KF):
            return "not the islands of the portal are listed"
        if ty != C("Runtime"):
            return "wrong type of a row"
        isl = None
        for x in terms(lab):
            if unver(x)[0] == "elem":
                isl = x
        if isl is None:
            return "the islands are not named" if is_c(lab) else None
        island = lambda x: (unver(x)[0] == "item" and unver(unver(x)[1]) == KF and unver(unver(x)[2]) == unver(isl)) or None
        tab = count if length_of(val, island) is True else names if joined(val, island) is True else None
        if tab is None:
            return None
        for n in (0, 1, 2):
            took = set()
            for default in ("ISL", "OTHER"):
                def at(x):
                    x = unver(x)
                    if island(x):
                        return [0] * n
                    if ext_call(x, "len") and island(x[2][0]):
                        return n
                    if x == unver(isl):
                        return "ISL"
                    if own_attr(x, "default_island_name", "_default_island_name"):
                        return default
                    return UNK
                got = [(teval(g, at), b) for g, b in gs]
                if any(v is UNK for v, b in got):
                    return None
                took.add(all(bool(v) == b for v, b in got))
            if len(took) > 1:
                return "only some islands are listed"
            if took == {True}:
                tab[n] += 1
    if count != [1, 1, 1]:
        return "the functions of some islands are not counted, or twice"
    if names[1:] != [1, 1] or names[0] > 1:
        return "the functions of some islands are not listed, or twice"
    return True


def sampled(t, w):
    """What a row shows, evaluated for a few values of what it has to show."""
    core = [x for x in terms(t) if w[2](x) is True]
    if not core:
        return None
    core = core[0]
    verdict = None
    for kind in ((0, 1, 7, 300), ("d", "d" * 300)) + (((0, 0.004, 0.25, 1),) if "Probability" in w[1] else ()):
        got = []
        for n in kind:
            def at(x, n=n):
                if unver(x) == unver(core):
                    return n
                if ext_call(x, "len"):
                    return 50000
                return UNK
            v = teval(t, at)
            got.append(v)
            if v is not UNK and v != n and str(v) != str(n):
                return False
        if UNK not in got:
            verdict = True
    return verdict


@rule("C51", "rows", "the description of a portal has the rows of its kind, with its own current values")
def c51(ctx):
    P = ctx.P
    kinds_ = ["BasicPortal", "LoggingPortal", "DataPortal", "AutonomousCodePortal", "PureCodePortal", "SwarmingPortal"]
    for c in portal_classes(ctx):
        f = c.find("describe")
        if f is None:
            ctx.check(f"{c.name}.describe", False, c.loc(), "no description")
            continue
        want = []
        for k in kinds_:
            if c.is_sub(P.cls(k)):
                want += [(k, w) for w in expected_rows(k)]
        ps = ctx.run(f, cls=c, exc="none", inline=("describe",))

        def ok(p):
            if p.kind != "return":
                return "describing fails"
            rows = frames(p.value)
            if rows == "columns":
                return "the columns are not type, parameter and value"
            if rows is None:
                return None
            if not any(e.kind == "call" and last(e) == "reset_index" for e in flat_events(p.events)) and kwarg(p.value, "ignore_index") != TRUE \
                    and not has_call(p.value, "reset_index") and fn_name(p.value) != "DataFrame":
                return "the rows are not numbered"
            fixed = [r for r in rows if r[3] is None]
            each = [r for r in rows if r[3] is not None]
            exp = [w for k, w in want if w != "islands"]
            labels = [r[1][2] if is_c(r[1]) else None for r in fixed]
            if None in labels:
                return None
            miss = [w[1] for w in exp if w[1] not in labels]
            if miss:
                return f"the row '{miss[0]}' is missing"
            extra = [l for l in labels if l not in [w[1] for w in exp]]
            if extra or len(labels) != len(exp):
                return f"unexpected or repeated row '{(extra or labels)[0]}'"
            if labels != [w[1] for w in exp]:
                return "the rows are out of order"
            und = None
            for r, w in zip(fixed, exp):
                if r[0] != C(w[0]):
                    return f"'{w[1]}' is listed as {tstr(r[0])}"
                v = w[2](r[2])
                if v is None and ext_call(unver(r[2]), "len") and unver(r[2])[2]:
                    n = strip_wrappers(unver(unver(r[2])[2][0]))
                    if n[0] in ("list", "set") and len(n[1]) == 1 and n[1][0][0] == "each" and n[1][0][3]:
                        v = False
                if v is None:
                    v = sampled(r[2], w)
                if v is False:
                    return f"'{w[1]}' shows {tstr(r[2])[:80]}"
                if v is not True:
                    und = True
            if any(w == "islands" for k, w in want):
                v = island_rows(each) if each else "the islands are not listed"
                if v is not True:
                    return v
            elif each:
                return None
            return None if und else True
        ctx.forall(f"{c.name}.describe", ps, ok, "all rows with the portal's own values", need=1)


# ---------------------------------------------------------------- C52
@rule("C52", "tester", "the portal tester isolates tests from one another")
def c52(ctx):
    c = ctx.P.cls("_PortalTester")
    cur = ("attr", ("cls", c.name), "_current_instance")

    def atom(t, v):
        t = unver(t)
        if t == cur:
            return {"none": None, "self": "SELF", "other": "OTHER"}[v["cur"]]
        if t == SELF:
            return "SELF"
        if t in (sym("portal_class"), ("attr", SELF, "portal_class")):
            return "CLASS" if v.get("pc") else None
        if ext_call(t, "issubclass"):
            if t[2] and t[2][0] == sym("exc_type") and len(t[2]) == 2 and t[2][1][0] == "ext":
                x = v.get("exc")
                return UNK if x is None else issubclass(x, getattr(builtins, t[2][1][1].split(".")[-1], ()))
            return True
        if t == sym("exc_type") and "exc" in v:
            return v["exc"]
        if t in (sym("exc_val"), sym("exc_tb")) and "exc" in v:
            return v["exc"] and "E"
        if t[0] == "isinstance" and t[1] == sym("exc_val") and isinstance(t[2], str) and "exc" in v:
            return v["exc"] is not None and issubclass(v["exc"], getattr(builtins, t[2].split(".")[-1], ()))
        return UNK

    def refused(p, exp):
        if exp == "refuse":
            if p.kind != "raise":
                return "testers can be nested"
            return not any(e.kind == "call" and last(e) in ("_clear_all", "_clear") for e in flat_events(p.events)) or "a refused tester resets portals"
        return p.kind == "return" or "a tester is refused without reason"
    i = c.find("__init__")
    ps = ctx.run(i, cls=c, exc="none")
    ctx.table("__init__", ps, [("while another is active", dict(cur="other", pc=0), "refuse"), ("while another is active, with a class", dict(cur="other", pc=1), "refuse"),
                               ("first", dict(cur="none", pc=0), "ok"), ("first, with a class", dict(cur="none", pc=1), "ok")],
              atom, refused, "nesting is refused")

    def marks(p):
        return p.kind != "return" or any(e.kind == "setattr" and e.name == "_current_instance" and e.recv == ("cls", c.name)
                                         and e.args["value"] == SELF for e in events(p)) or "the tester is not remembered as active"
    ctx.forall("__init__: active", ps, marks, "the active tester is remembered", need=1)

    def params(p):
        if p.kind != "return":
            return True
        w = {e.name: e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF}
        if w.get("portal_class") != sym("portal_class"):
            return "the class to be tested is lost"
        return w.get("args") == sym("args") and w.get("kwargs") == sym("kwargs") or "the parameters of the portal are lost"
    ctx.forall("__init__: parameters", ps, params, "class and parameters are kept", need=1)

    g = c.find("__enter__")
    ps = ctx.run(g, cls=c, exc="none", default="opaque") if False else ctx.run(g, cls=c, exc="none", opaque=("_clear_all", "BasicPortal._clear_all"))
    PC = ("attr", SELF, "portal_class")

    def clear_at(evs):
        return [k for k, e in enumerate(evs) if e.kind == "call" and last(e) == "_clear_all"]

    def by_class(evs, cl):
        """Is the class of the portal (and not only a base class) cleared?"""
        return any(evs[k].recv is not None and (unver(evs[k].recv) == PC or evs[k].recv[0] not in ("cls", "ext", "unknown"))
                   for k in cl)

    def enters(p, exp):
        if exp == "refuse":
            return refused(p, exp)
        if p.kind != "return":
            return "entering fails"
        evs = list(events(p))
        cl = clear_at(evs)
        if not cl:
            return "portals left by other tests are not cleared"
        act = [e for e in evs if e.kind == "setattr" and e.name == "_current_instance"]
        if act and act[-1].args["value"] != SELF:
            return "another tester can be used meanwhile"
        if p.value != SELF:
            return "the tester is not returned"
        made = [k for k, e in enumerate(evs) if e.kind == "call" and isinstance(e.res, tuple) and e.res[0] == "call" and unver(e.res[1]) == PC]
        if exp == "portal" and not by_class(evs, cl):
            return "what the class itself keeps is not cleared"
        if exp == "plain":
            return not made or "a portal is created although no class was given"
        if len(made) != 1:
            return "not exactly one portal is created"
        k = made[0]
        t = evs[k].res
        if cl[-1] > k:
            return "the portals are cleared after the tested one was created"
        if not (("**", ("attr", SELF, "kwargs")) in t[3] and any(x == ("*", ("attr", SELF, "args")) or x == ("star", ("attr", SELF, "args")) or tstr(x) == "*self.args" for x in t[2])):
            return "the portal is not created with the given parameters"
        keep = [e for e in evs if e.kind == "setattr" and e.name == "portal" and e.recv == SELF and e.args["value"] == t]
        if not keep:
            return "the portal is not available to the test"
        ent = [e for e in evs[k:] if (e.kind == "with_enter" or e.kind == "call" and last(e) == "__enter__") and e.recv is not None and (
            e.recv == t or is_attr(unver(e.recv), "portal", SELF))]
        return len(ent) == 1 or "the portal is not entered exactly once"
    ctx.table("__enter__", ps, [("while another is active", dict(cur="other", pc=1), "refuse"),
                                ("with a class", dict(cur="self", pc=1), "portal"), ("without a class", dict(cur="self", pc=0), "plain")],
              atom, enters, "clean start")
    h = c.find("__exit__")
    ps = ctx.run(h, cls=c, exc="none", opaque=("_clear_all", "BasicPortal._clear_all"))

    def leaves(p, exp):
        if p.kind != "return":
            return "leaving fails"
        if p.value not in (NONE, FALSE) :
            return None if p.value != TRUE else "exceptions are swallowed"
        evs = list(events(p))
        cl = clear_at(evs)
        if not cl:
            return "the portals of the test are not cleared"
        free = [e for e in evs if e.kind == "setattr" and e.name == "_current_instance" and e.args["value"] == NONE]
        if not free or evs.index(free[-1]) < max(k for k, e in enumerate(evs) if e.kind == "setattr" and e.name == "_current_instance"):
            return "no other tester can be used afterwards"
        ex = [k for k, e in enumerate(evs) if (e.kind == "with_exit" or e.kind == "call" and last(e) == "__exit__")]
        if exp == "portal":
            if not by_class(evs, cl):
                return "what the class itself keeps is not cleared"
            if len(ex) != 1:
                return "the tested portal is not left exactly once"
            if ex[0] > cl[0]:
                return "the portal is left after everything was cleared"
            a = [x for x in h.params()[0][1:]]
            e = evs[ex[0]]
            if list(e.args.values()) and [v for v in e.args.values()] != [sym(x) for x in a]:
                return "the portal does not learn of the exception"
        else:
            return not ex or "a portal is left that was not entered"
        return True
    ctx.table("__exit__", ps, [
        (("with a class" if pc else "without a class") + (f", after {exc.__name__}" if exc else ""),
         dict(cur="self", pc=pc, exc=exc), "portal" if pc else "plain")
        for exc in (None, ValueError, KeyboardInterrupt) for pc in (1, 0)], atom, leaves, "clean end")


# ---------------------------------------------------------------- C53
DECORATORS = {
    "ordinary": ("OrdinaryFn", {}),
    "safe": ("SafeFn", {}),
    "autonomous": ("AutonomousFn", {"island_name": "island_name", "strictly_autonomous": "strictly_autonomous"}),
    "strictly_autonomous": ("AutonomousFn", {"island_name": "island_name", "strictly_autonomous": True}),
    "pure": ("PureFn", {"island_name": "island_name", "guards": "guards"}),
}


@rule("C53", "decorators", "each decorator makes a function of its kind with exactly its parameters")
def c53(ctx):
    fcs = [c.name for c in function_classes(ctx)]
    for d, (kind, want) in DECORATORS.items():
        c = ctx.P.cls(d)
        i = c.find("__init__")
        bases = tuple(k + ".__init__" for k in ("PortalAwareClass",))
        ps = ctx.run(i, cls=c, exc="none", opaque=bases, inline=("autonomous.__init__", "strictly_autonomous.__init__", "pure.__init__"))
        stores = {}

        def kept(p):
            if p.kind != "return":
                return True
            w = {e.name: e.args["value"] for e in events(p) if e.kind == "setattr" and e.recv == SELF}
            for k, src in want.items():
                v = w.get(k)
                if v is None:
                    cand = [n for n, x in w.items() if x == (sym(src) if isinstance(src, str) else C(src))]
                    if not cand:
                        return f"{k} is lost"
                    stores.setdefault(k, set()).add(cand[0])
                    continue
                stores.setdefault(k, set()).add(k)
                if isinstance(src, str):
                    if v != sym(src) and not (ext_call(v, "bool") and v[2][0] == sym(src)):
                        return f"{k} is not what was given"
                elif v != C(src):
                    return f"{k} is not {src}"
            po = [e for e in events(p) if e.kind == "call" and last(e) == "__init__" and e.recv == SELF]
            po = [e for e in po if "portal" in e.args]
            if not po:
                return "the portal is lost"
            return po[-1].args["portal"] == sym("portal") or "the portal is not the given one"
        ctx.forall(f"{d}: parameters", ps, kept, "kept as given", need=1)
        ctx.exists(f"{d}: accepted", ps, lambda p: p.kind == "return", "the decorator can be created")

        def refuses(p):
            if "island_name" not in want:
                return True
            for x in (5, 0, (), False, b"", 1.5):
                at = lambda t: x if t == sym("island_name") else (False if t[0] == "isinstance" and t[1] == sym("island_name") else UNK)
                if p.kind == "return" and consistent(p, at):
                    return f"an island name that is no text is accepted ({x!r})"
            return True

        def given(p, name):
            at = lambda t: name if t == sym("island_name") else (
                isinstance(name, str) if t[0] == "isinstance" and t[1] == sym("island_name") else UNK)
            return p.kind == "return" and consistent(p, at)
        if "island_name" in want:
            ctx.exists(f"{d}: an island", ps, lambda p: given(p, "island"), "a text is accepted")
            ctx.exists(f"{d}: no island", ps, lambda p: given(p, None), "None is accepted")
        ctx.forall(f"{d}: island names", ps, refuses, "texts or None only", need=1)
        f = c.find("__call__")
        a = f.params()[0][1]
        ps = ctx.run(f, cls=c, exc="none")

        def makes(p):
            if p.kind != "return":
                return "the decorator fails"
            made = [e for e in events(p) if e.kind == "call" and isinstance(e.res, tuple) and e.res[0] == "call" and e.res[1][0] == "cls" and e.res[1][1] in fcs]
            for x in flat_events(p.events):
                if x.kind == "setattr" and x.recv == SELF and any(x.name in stores.get(k, {k}) for k in want) and not is_attr(
                        unver(x.args["value"]), x.name, SELF):
                    return f"the {x.name} of the decorator changes with its use"
            if not made:
                return None if p.value[0] == "call" else "no function is made"
            if len(made) > 1:
                return None
            e = made[0]
            if e.res[1][1] != kind:
                return f"a function of another kind is made ({e.res[1][1]})"
            if p.value != e.res:
                return "the function made is not returned"
            ar = dict(e.args)
            if ar.get("a_func", ar.get("a_fn")) != sym(a):
                return "another function is wrapped"
            for k in want:
                v = unver(ar.get(k, ("?",)))
                names = stores.get(k, {k})
                if not any(is_attr(v, n, SELF) for n in names) and not (ext_call(v, "bool") and any(is_attr(unver(v[2][0]), n, SELF) for n in names)):
                    return f"{k} is not passed on"
            for k, v in ar.items():
                if k in ("a_func", "a_fn", "portal", "_") or k in want:
                    continue
                g = ctx.P.cls(kind).find("__init__")
                return f"{k} is given something" if v != NONE and v != FALSE and v != ("dict", ()) else True
            v = unver(ar.get("portal", NONE))
            if is_attr(v, "portal", SELF):
                return True
            inside = [x for x in p.events if x.kind == "with_enter" and x.recv is not None and is_attr(unver(x.recv), "portal", SELF)]
            if v == NONE and inside:
                return True
            if contains(v, sym(a)):
                return "the function is bound to another portal than the decorator's"
            return "the function is not bound to the decorator's portal" if v == NONE or is_attr(v, "_portal", SELF) else None
        ctx.forall(f"{d}: result", ps, makes, f"a {kind} with these parameters", need=1)


@rule("C53", "constructor", "a function belongs to the island given or to the default one")
def c53_ctor(ctx):
    c = ctx.P.cls("AutonomousFn")
    f = c.find("__init__")
    a = f.params()[0]
    ps = ctx.run(f, cls=c, exc="none", opaque=("SafeFn.__init__", "OrdinaryFn.__init__", "AutonomousFn.update", "_begin_fn_registration"))
    DEF = ("attr", ("attr", SELF, "portal"), "default_island_name")

    def atom(t, v):
        t = unver(t)
        if t == sym(a[2]):
            return v["isl"]
        if t == DEF:
            return "DEF"
        if t == sym(a[3]):
            return v["strict"]
        if t[0] == "isinstance" and t[1] == sym(a[1]):
            return v["fn"] and t[2] == "AutonomousFn"
        if t[0] == "isinstance" and t[2] == "str":
            return True
        if is_attr(t, "island_name", sym(a[1])):
            return v.get("old", UNK)
        return UNK

    def outcome(p, exp):
        v, e = exp
        if e == "refuse":
            return p.kind == "raise" or "a function is moved to another island"
        if p.kind != "return":
            return "the function is refused"
        w = {x.name: x.args["value"] for x in events(p) if x.kind == "setattr" and x.recv == SELF}
        if e == "copy":
            up = [x for x in events(p) if x.kind == "call" and last(x) == "update"]
            if up and any(y == sym(a[1]) for y in up[-1].args.values()):
                return "island_name" not in w or None
            return None if "island_name" in w else "the function is not copied"
        if "island_name" not in w or "strictly_autonomous" not in w:
            return "island or strictness are not set"
        got = teval(w["island_name"], lambda t: atom(t, v))
        if got is UNK:
            return None
        if got != e:
            return f"the island is {got} instead of {e}"
        got = teval(w["strictly_autonomous"], lambda t: atom(t, v))
        if got is UNK:
            return None
        return bool(got) == bool(v["strict"]) or "strictness is not what was asked for"
    rows = []
    for s in (True, False):
        rows += [(f"island given, strict={s}", dict(isl=" X y", strict=s, fn=False), " X y"), (f"no island given, strict={s}", dict(isl=None, strict=s, fn=False), "DEF")]
    rows += [("from a function of the island", dict(isl=" X y", strict=False, fn=True, old=" X y"), "copy"),
             ("from a function of another island", dict(isl=" X y", strict=False, fn=True, old="Y"), "refuse"),
             ("from a function of another island than the default one", dict(isl=None, strict=False, fn=True, old="Y"), "refuse")]
    ctx.table("AutonomousFn", ps, [(l, v, (v, e)) for l, v, e in rows], atom, outcome, "island and strictness")
    u = c.find("update")
    o = sym(u.params()[0][1])
    pu = ctx.run(u, cls=c, exc="none", opaque=("SafeFn.update", "OrdinaryFn.update"))
    for st in (True, False):
        for reg in (True, False):
            def at(t, st=st, reg=reg):
                t = unver(t)
                if is_attr(t, "strictly_autonomous", o):
                    return st
                if is_attr(t, "_fn_fully_registered", o):
                    return reg
                if is_attr(t, "island_name", o):
                    return " X y"
                return UNK

            def same(p, at=at, st=st):
                if p.kind != "return":
                    return True
                w = {x.name: x.args["value"] for x in events(p) if x.kind == "setattr" and x.recv == SELF}
                for k, e in (("island_name", " X y"), ("strictly_autonomous", st)):
                    if k not in w:
                        return f"{k} is not that of the function it is made from"
                    v = teval(w[k], at)
                    if v is UNK:
                        return None
                    if v != e:
                        return f"{k} is not that of the function it is made from"
                return True
            ctx.forall(f"AutonomousFn.update: strict={st}, checked={reg}", pu, same, "island and strictness are kept",
                       paths=[p for p in pu if consistent(p, at)], need=1)


@rule("C53", "predicates", "the predicates tell the kinds of functions apart")
def c53_pred(ctx):
    T = {"is_autonomous": lambda v: v["auto"], "is_loosely_autonomous": lambda v: v["auto"] and not v["strict"],
         "is_strictly_autonomous": lambda v: v["auto"] and v["strict"], "is_pure": lambda v: v["pure"]}
    for n, exp in T.items():
        f = ctx.P.func(n)
        a = sym(f.params()[0][0])
        ps = ctx.run(f, exc="none", inline=tuple(T))

        def atom(t, v):
            t = unver(t)
            if t[0] == "isinstance" and t[1] == a:
                return {"AutonomousFn": v["auto"], "PureFn": v["pure"], "OrdinaryFn": v["fn"], "SafeFn": v["fn"]}.get(t[2].split(".")[-1], UNK)
            if is_attr(t, "strictly_autonomous", a):
                return v["strict"]
            if t[0] in ("eq", "is"):
                k = [x[1].split(".")[-1] for x in t[1:3] if x[0] == "cls"]
                if k and any(x == ("typeof", a) or ext_call(x, "type") and x[2] == (a,) for x in t[1:3]):
                    return k[0] == ("PureFn" if v["pure"] else "AutonomousFn" if v["auto"] else "OrdinaryFn" if v["fn"] else "")
            if t[0] == "attr" and t[2] in ("__name__", "__qualname__") and (t[1] in (("typeof", a), ("attr", a, "__class__"))
                                                                          or ext_call(t[1], "type") and t[1][2] == (a,)):
                return "PureFn" if v["pure"] else "AutonomousFn" if v["auto"] else "OrdinaryFn" if v["fn"] else "partial"
            if is_attr(t, "fn_type", a):
                return "pure" if v["pure"] else "strictly_autonomous" if v["strict"] else "autonomous"
            if ext_call(t, "callable"):
                return True
            if t[0] == "hasattr":
                return v["auto"]
            return UNK

        def outcome(p, e):
            v, w = e
            if p.kind != "return":
                return "the predicate fails"
            g = teval(p.value, lambda t: atom(t, v))
            if g is UNK:
                return None
            return bool(g) == bool(w) or f"the answer is {bool(g)}"
        rows = []
        for l, v in (("another callable", dict(fn=False, auto=False, pure=False, strict=False)), ("ordinary", dict(fn=True, auto=False, pure=False, strict=False)),
                     ("autonomous", dict(fn=True, auto=True, pure=False, strict=False)), ("strictly autonomous", dict(fn=True, auto=True, pure=False, strict=True)),
                     ("pure", dict(fn=True, auto=True, pure=True, strict=False))):
            rows.append((l, v, (v, exp(v))))
        ctx.table(n, ps, rows, atom, outcome, "the kind of the function")


# ---------------------------------------------------------------- C54
ENV = {"hostname": "socket.gethostname", "user": "getpass.getuser", "pid": "os.getpid", "platform": "platform.platform",
       "python_implementation": "platform.python_implementation", "python_version": "platform.python_version",
       "processor": "platform.processor", "cpu_count": "psutil.cpu_count|os.cpu_count", "cpu_load_avg": "psutil.getloadavg|os.getloadavg",
       "cuda_gpu_count": "torch.cuda.device_count", "disk_usage": "psutil.disk_usage|shutil.disk_usage", "virtual_memory": "psutil.virtual_memory",
       "working_directory": "os.getcwd|pathlib.Path.cwd", "local_timezone": "tzname", "is_in_notebook": "is_executed_in_notebook"}


@rule("C54", "environment", "the summary of the environment is complete and taken at the time of the call")
def c54(ctx):
    f = ctx.P.func("build_execution_environment_summary")
    ps = ctx.run(f, exc="none")
    cached = [d for d in f.node.decorator_list]
    a = f.node.args
    pos = a.posonlyargs + a.args
    early = [x.arg for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
             if d is not None and not isinstance(d, ast.Constant)]

    def ok(p):
        if p.kind != "return":
            return "the summary can't be made"
        d = dict_parts(p.value)
        if d is None:
            return "the summary is not made anew" if p.value[0] in ("gvar", "attr") else None
        miss = set(ENV) - set(d[0])
        if miss:
            return f"{sorted(miss)[0]} is missing"
        if d[1]:
            return None
        und = False
        for k, src in ENV.items():
            v = unver(d[0][k])
            names = src.split("|")
            while v[0] == "call" and v[1][0] == "ext" and v[1][1] in ("int", "tuple", "list", "bool", "float") and len(v[2]) == 1:
                v = unver(v[2][0])
            top = ""
            if v[0] == "call":
                top = v[1][1] if v[1][0] == "ext" else fn_name(v)
            while v[0] == "call" and v[1] == ("ext", "str"):
                v = v[2][0]
                top = v[1][1] if v[0] == "call" and v[1][0] == "ext" else fn_name(v)
            if k == "local_timezone":
                inner = [x for x in terms(v) if x[0] == "call"]
                if fn_name(v) == "tzname" and has_call(v, "now") and (has_call(v, "astimezone")):
                    if any(fn_name(x) == "now" and (x[2] or x[3]) for x in inner) or any(fn_name(x) == "astimezone" and (x[2] or x[3]) for x in inner):
                        return "the time zone is not the local one"
                    continue
                if fn_name(v) == "tzname" or fn_name(v) in ("strftime", "utcoffset", "isoformat") and not any(
                        is_c(x) and x[2] == "%Z" for x in terms(v)):
                    return "the time zone is not the local one"
                und = True
                continue
            if k != "local_timezone" and v[0] == "item" and v[1][0] == "call" and v[1][1][0] == "ext" and v[1][1][1] in names:
                return f"{k} shows a part of it only"
            if k == "cpu_count" and any(n == "logical" and x != TRUE for n, x in (v[3] if v[0] == "call" else ())) or (
                    k == "cpu_count" and v[0] == "call" and v[2] and v[2][0] != TRUE):
                return "cpu_count shows something else"
            if v[0] == "call" and v[1][0] == "ext" and v[1][1].split(".")[0] in ("psutil", "platform", "torch") and v[1][1] not in names + [
                    "platform.uname", "platform.node"]:
                return f"{k} shows something else"
            if any(top == n or top == n.split(".")[-1] for n in names):
                if k == "disk_usage" and v[2]:
                    w = unver(v[2][0])
                    if is_c(w) and w[2] != ".":
                        return "the disk is not that of the working directory"
                continue
            if v[0] == "sym" and v[1] in early:
                return f"{k} is determined once, when the module is loaded"
            if v[0] == "c" or (top and any(top in s.split("|") for s in ENV.values())) or k in ("pid", "working_directory", "user", "hostname") and v[0] == "call" and v[1][0] == "ext" \
                    and v[1][1].startswith(("os.", "os.path.", "socket.", "getpass.", "platform.")) and v[1][1] not in ("os.getlogin", "socket.getfqdn", "platform.node", "os.path.abspath", "os.path.realpath"):
                return f"{k} shows something else"
            und = True
        return None if und else True
    ctx.forall("summary", ps, ok, "all items, each from its source", need=1)
    ctx.check("fresh", False if any("cache" in ast.unparse(d) for d in cached) else True, f.loc(),
              "the summary is made anew on every call")


@rule("C54", "notebook", "a notebook is recognised, and nothing else")
def c54_nb(ctx):
    f = ctx.P.func("is_executed_in_notebook")
    ps = ctx.run(f, exc="protected")
    VAR = None
    for p in ps:
        for e in events(p):
            if e.kind == "setglobal":
                VAR = e.recv
    IPY = lambda t: t[0] == "call" and fn_name(t) == "get_ipython"

    def atom(t, v):
        t = unver(t)
        if t[0] == "gvar" and VAR is not None and t == unver(VAR):
            return v["memo"]
        if IPY(t):
            return "IPY" if v["ipy"] else None
        if t[0] == "hasattr" and IPY(unver(t[1])):
            return v["nb"] if t[2] == "set_custom_exc" else UNK
        return UNK

    def outcome(p, exp):
        v, w = exp
        fl = any(failed(e) for e in flat_events(p.events))
        if p.kind != "return":
            return "asking for the notebook fails" if fl else "asking for the notebook raises"
        g = teval(p.value, lambda t: atom(t, v))
        if g is UNK:
            return None
        if fl:
            return bool(g) is False or "without IPython it counts as a notebook"
        if bool(g) != w:
            return f"the answer is {bool(g)}"
        ws = [e for e in events(p) if e.kind == "setglobal"]
        if ws and v["memo"] is None:
            m = teval(ws[-1].args["value"], lambda t: atom(t, v))
            if m is not UNK and bool(m) != w:
                return "the wrong answer is remembered"
        return True
    rows = [("remembered yes", dict(memo=True, ipy=False, nb=False), True), ("remembered no", dict(memo=False, ipy=True, nb=True), False)] if VAR is not None else []
    rows += [("no IPython session", dict(memo=None, ipy=False, nb=False), False), ("IPython without hooks", dict(memo=None, ipy=True, nb=False), False),
             ("notebook", dict(memo=None, ipy=True, nb=True), True)]
    ctx.table("is_executed_in_notebook", ps, [(l, v, (v, w)) for l, v, w in rows], atom, outcome, "the answer")


# ---------------------------------------------------------------- the list of decorators
def known_decorators(ctx):
    """(names listed in pythagoras.all_decorators, where) or (None, where)."""
    P = ctx.P
    m = P.mods.get("pythagoras")
    found = None
    n = 0
    for x in ast.walk(m.tree):
        ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AnnAssign, ast.AugAssign)) else []
        for t in ts:
            if isinstance(t, ast.Name) and t.id == "all_decorators":
                found = x
                n += 1
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == "all_decorators":
                n += 1
    where = f"{m.rel}:{found.lineno}" if found is not None else m.rel
    if found is None or n != 1 or not isinstance(found, (ast.Assign, ast.AnnAssign)):
        return None, where
    v = found.value

    def listed(x):
        if isinstance(x, ast.Name):
            for y in m.tree.body:
                if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name) and y.targets[0].id == x.id:
                    return listed(y.value)
            return None
        if isinstance(x, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(e, ast.Name) for e in x.elts):
            return [e.id for e in x.elts]
        return None
    if isinstance(v, ast.DictComp) and len(v.generators) == 1 and not v.generators[0].ifs:
        g = v.generators[0]
        if isinstance(g.target, ast.Name) and isinstance(v.key, ast.Attribute) and v.key.attr == "__name__" and isinstance(
                v.key.value, ast.Name) and v.key.value.id == g.target.id:
            return listed(g.iter), where
        return None, where
    keys = None
    if isinstance(v, ast.Dict) and all(k is not None for k in v.keys):
        keys = v.keys
    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and all(k.arg for k in v.keywords):
        return [k.arg for k in v.keywords], where
    if keys is None:
        return None, where
    out = []
    for k in keys:
        if isinstance(k, ast.Constant):
            out.append(k.value)
        elif isinstance(k, ast.Attribute) and k.attr == "__name__" and isinstance(k.value, ast.Name):
            out.append(k.value.id)
        else:
            return None, where
    return out, where


def decorators_known(ctx):
    names, where = known_decorators(ctx)
    if names is None:
        ctx.check("all_decorators", None, where, "the list of the library's decorators is not recognised")
        return
    miss = sorted(set(DECORATORS) - set(names))
    more = sorted(set(names) - set(DECORATORS))
    ctx.check("all_decorators", not miss and not more, where,
              (f"@{miss[0]} is not recognised as a decorator of the library: what it decorates is refused" if miss else
               f"{more[0]} counts as a decorator of the library" if more else "every decorator of the library is recognised"), len(names))


@rule("C21", "library", "the decorators of the library are recognised")
def c21_library(ctx):
    decorators_known(ctx)


@rule("C53", "library", "what is decorated with a decorator of the library is accepted")
def c53_library(ctx):
    decorators_known(ctx)
