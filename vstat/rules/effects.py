"""What may run code, start programs or import modules (C44)."""
import ast
from .base import *
from .ordinary import function_classes
from ..callgraph import Graph
from ..api import API

ACTIVE = {"execute", "__call__", "run", "run_list", "run_grid", "can_be_executed"}
RUNS = {"exec", "builtins.exec"}
TEXT = {"eval", "builtins.eval", "__import__", "builtins.__import__", "pickle.loads", "pickle.load", "marshal.loads", "marshal.load",
        "runpy.run_path", "runpy.run_module", "types.FunctionType", "types.CodeType", "code.interact", "codeop.compile_command",
        "dill.loads", "cloudpickle.loads", "joblib.load", "shelve.open", "types.LambdaType", "code.InteractiveInterpreter", "timeit.timeit"}
PROGRAMS = {"os.system", "os.popen", "os.startfile", "pty.spawn", "importlib.import_module", "importlib.reload",
            "importlib.__import__", "pip.main"}


def runs_program(x):
    return x in PROGRAMS or x.split(".")[0] == "subprocess" and "." in x and x not in (
        "subprocess.PIPE", "subprocess.STDOUT", "subprocess.DEVNULL", "subprocess.CalledProcessError",
        "subprocess.SubprocessError", "subprocess.TimeoutExpired", "subprocess.CompletedProcess") or (
        x.startswith(("os.exec", "os.spawn", "os.posix_spawn")))


def graph(ctx):
    if not hasattr(ctx.P, "_callgraph"):
        ctx.P._callgraph = Graph(ctx.P)
    return ctx.P._callgraph


def of(f, classes):
    return f.cls is not None and any(f.cls is c for c in classes)


def active(ctx):
    """The operations that are asked to run a function."""
    cs = function_classes(ctx) + [ctx.P.cls("PureFnExecutionResultAddr")]
    return cs, [c.methods[n] for c in cs for n in ACTIVE if n in c.methods]


@rule("C44", "passive", "only operations asked to run functions reach their execution")
def c44_passive(ctx):
    G = graph(ctx)
    cs, act = active(ctx)
    execs = [c.methods["execute"] for c in cs if "execute" in c.methods]
    if len(execs) < 3:
        ctx.check("executors", None, "pythagoras", "the executing operations are not recognised")
        return
    roots = [f for f in ctx.P.all_functions() if f.qual in API and f not in act]
    n = 0
    for f in roots:
        seen = G.reach([f], strong=True)
        hit = next((e for e in execs if e in seen), None)
        n += 1
        if hit is None and any(e in G.reach([f]) for e in execs):
            ctx.check(f"{f.qual}", None, f.loc(), "it is not known what is called")
        elif hit is not None:
            ctx.ob(f"{f.qual}", "violated", f.loc(), f"{f.qual} can run the code of a function", len(seen),
                   " -> ".join(G.path(seen, hit)))
    ctx.check("operations that run nothing", True if n >= 150 else None, "pythagoras",
              f"{n} operations reach no execution", n)
    for f in act:
        ctx.check(f"{f.qual}: runs", True, f.loc(), "runs functions when asked to")


@rule("C44", "exec", "code is run only inside the execution of a function")
def c44_exec(ctx):
    G = graph(ctx)
    cs, act = active(ctx)
    execs = [c.methods["execute"] for c in cs if "execute" in c.methods]
    sites = [(f, x, node) for f, xs in G.ext.items() for x, node in xs if x in RUNS]
    ctx.check("places that run code", True if sites else None, "pythagoras", "exec", len(sites))
    roots = [f for f in ctx.P.all_functions() if f.qual in API and f not in execs]
    seen = G.reach(roots, stop=lambda f: f in execs)
    for f, x, node in sites:
        if f in execs:
            ctx.check(f"{f.qual}: {x}", True, f.loc(node), "inside the execution of a function")
        elif f in seen:
            ctx.ob(f"{f.qual}: {x}", "violated", f.loc(node), "code can be run without executing a function", 1,
                   " -> ".join(G.path(seen, f)))
        else:
            ctx.check(f"{f.qual}: {x}", True, f.loc(node), "reached only from the execution of a function")


@rule("C44", "text", "no text is evaluated and no object made from text except as literals")
def c44_text(ctx):
    G = graph(ctx)
    n = 0
    for f, xs in G.ext.items():
        for x, node in xs:
            n += 1
            if x in TEXT:
                ctx.ob(f"{f.qual}: {x}", "violated", f.loc(node), f"{x} turns text into running code", 1)
    for m in ctx.P.mods.values():
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for node in ast.walk(s):
                if isinstance(node, ast.Call):
                    r = ctx.P.resolve_expr(m, node.func)
                    if r and r[0] == "ext" and (r[1] in TEXT or r[1] in RUNS or runs_program(r[1])):
                        ctx.ob(f"{m.name}: {r[1]}", "violated", f"{m.rel}:{node.lineno}", f"{r[1]} when the library is imported", 1)
    ctx.check("references to functions from outside", True if n >= 200 else None, "pythagoras", "none evaluates text", n)


@rule("C44", "programs", "only installing and removing packages starts programs or imports modules by name")
def c44_programs(ctx):
    G = graph(ctx)
    own = [f for f in ctx.P.all_functions() if f.qual in ("install_package", "uninstall_package")]
    if len(own) != 2:
        ctx.check("package manager", None, "pythagoras", "not recognised")
        return
    roots = [f for f in ctx.P.all_functions() if f.qual in API and f not in own]
    seen = G.reach(roots, stop=lambda f: f in own)
    for f, xs in G.ext.items():
        for x, node in xs:
            if not runs_program(x):
                continue
            if f in own or f not in seen:
                ctx.check(f"{f.qual}: {x}", True, f.loc(node), "part of installing or removing packages")
            else:
                ctx.ob(f"{f.qual}: {x}", "violated", f.loc(node), f"{x} outside the installation of packages", 1,
                       " -> ".join(G.path(seen, f)))
    for f in own:
        if f in seen:
            ctx.ob(f"{f.qual}: callers", "violated", f.loc(), "packages are installed or removed unasked", 1,
                   " -> ".join(G.path(seen, f)))
        else:
            ctx.check(f"{f.qual}: callers", True, f.loc(), "never called by the library itself")


@rule("C44", "shape", "loaded code consists of function definitions with one decorator of the library each")
def c44_shape(ctx):
    f = ctx.P.func("process_augmented_func_src")
    ps = ctx.run(f, exc="none")
    SRC = sym(f.params()[0][0])

    def node_of(t):
        t = unver(t)
        return t[0] == "elem" and is_attr(t[1], "body") and has_call(t[1], "parse") and contains(t[1], SRC)

    def ok(p):
        if p.kind != "return":
            return True
        found = None
        for e in loops(p.events):
            it = e.x["iter"]
            if it is None or not (contains(it, SRC) and any(is_attr(x, "body") for x in terms(it))):
                continue
            for kind, evs, gs in e.x["iters"]:
                if kind in ("raise", "assert"):
                    continue
                found = True
                isf = one = known = False
                for g in gs:
                    c, b = unver(g[0]), g[1]
                    if c[0] == "isinstance" and node_of(c[1]):
                        if c[2].split(".")[-1] == "FunctionDef" and b:
                            isf = True
                    if c[0] in ("eq", "lt", "in") or c[0] == "truthy":
                        def val(n):
                            def atom(t):
                                t = unver(t)
                                if t[0] == "call" and fn_name(t) == "len" and t[2] and is_attr(t[2][0], "decorator_list"):
                                    return n
                                if is_attr(t, "decorator_list"):
                                    return list(range(n))
                                return UNK
                            return teval(c, atom)
                        vs = [val(k) for k in range(4)]
                        if UNK not in vs and [bool(v) == bool(b) for v in vs] == [False, True, False, False]:
                            one = True
                        if c[0] == "in" and b and is_attr(unver(c[1]), "attr") and tstr(c[2]).endswith("_decorators"):
                            known = True
                if not (isf and one) and any("FunctionDef" in tstr(unver(g[0])) or "decorator_list" in tstr(unver(g[0])) for g in list(p.guards) + [
                        (c, b) for l in loops(p.events) if l is not e for _, _, gg in l.x["iters"] for c, b in gg]):
                    return None
                if not isf:
                    return "something else than a function definition is accepted"
                if not one:
                    return "a function with more than one decorator or with none is accepted"
        return True if found else None
    ctx.forall("accepted code", ps, ok, "plain function definitions with one decorator", paths=ps.returns(), need=1)

    def only(p):
        for e in flat_events(p.events):
            if e.kind != "call" or not isinstance(e.res, tuple) or e.res[0] != "call":
                continue
            for g in [e.res[1]] + ([e.res[1][1]] if e.res[1][0] == "call" else []):
                if g[0] == "call" and fn_name(g) == "getattr" or g[0] == "item":
                    if not (g[0] == "item" and tstr(unver(g[1])).endswith("_decorators")):
                        return "code that is loaded can name something else than a decorator of the library"
        return True
    ctx.forall("decorators", ps, only, "only the library's decorators are applied", need=1)

    g = ctx.P.func("convert_astkeywords_to_dict")
    ps = ctx.run(g, exc="none")

    def lit(p):
        if p.kind != "return":
            return True
        ev = [x for x in terms(p.value) if x[0] == "call"] + [e.res for e in flat_events(p.events) if e.kind == "call"]
        if any(isinstance(x, tuple) and x and x[0] == "call" and fn_name(x) == "literal_eval" for x in ev):
            return True
        if any(isinstance(x, tuple) and x and x[0] == "call" and fn_name(x) in ("eval", "compile", "exec") for x in ev):
            return "parameters are evaluated as code"
        return None
    got = [lit(p) for p in ps.returns()]
    bad = [x for x in got if isinstance(x, str)]
    ctx.check("parameters of decorators", False if bad else (True if True in got else None), g.loc(), bad[0] if bad else "read as literals")
