"""Command line: `check`, `dump`, `gen`, `all`."""
from __future__ import annotations
import sys
import os
import json
import time
from .project import Project, AnalysisBroken
from .engine import Interp, Policy, TooManyPaths

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:"):
                rest = l[len("KNOWN-FINDING:"):].strip()
                d = rest.split(" ", 2)
                pid = d[0].split("=", 1)[1]
                key, _, what = rest[len(d[0]):].strip().partition(" :: ")
                out[(pid, key.split("=", 1)[1])] = what
    return out


def run_property(P, pid):
    from .rules import PROPS
    from .rules.base import Ctx, Stop
    ctx = Ctx(P, pid)
    for name, text, f in PROPS.get(pid, []):
        ctx.rule = name
        try:
            f(ctx)
        except Stop as e:
            ctx.ob("rule", "undecided", "", str(e))
        except AnalysisBroken as e:
            ctx.ob("rule", "undecided", "", f"anchor not found: {e}")
        except Exception as e:
            if os.environ.get("VSTAT_DEBUG"):
                raise
            ctx.ob("rule", "undecided", "", f"rule not applicable to this code: "
                   f"{type(e).__name__}: {e}")
    return ctx


def check(argv):
    from .rules import PROPS
    from . import rules
    rules.load()
    quiet = "-v" not in argv
    pids = [a for a in argv if not a.startswith("-")]
    if pids == ["all"] or not pids:
        pids = sorted(PROPS)
    t0 = time.time()
    rc = 0
    try:
        P = Project()
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN {e}")
        return 2
    floors = load_floors()
    for pid in pids:
        t1 = time.time()
        try:
            ctx = run_property(P, pid)
        except AnalysisBroken as e:
            print(f"ANALYSIS-BROKEN property={pid} {e}")
            rc = rc or 2
            continue
        r = report(pid, ctx, time.time() - t1, floors, quiet, P)
        rc = 1 if 1 in (r, rc) else (rc or r)
    if len(pids) > 1:
        print(f"{len(pids)} properties, {time.time() - t0:.1f}s")
    return rc


def load_floors():
    p = os.path.join(HERE, "vstat", "floors.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {}


def report(pid, ctx, wall, floors, quiet, P):
    from .rules import PROPS
    kf = known_findings()
    viol, known = [], []
    for o in ctx.obs:
        if o.status == "violated":
            (known if (pid, o.key) in kf else viol).append(o)
    n = {s: len([o for o in ctx.obs if o.status == s]) for s in ("ok", "violated", "undecided")}
    evdir = os.environ.get("VSTAT_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rp = os.path.join(evdir, f"{pid}.violations.txt")
    if os.path.exists(rp):
        os.unlink(rp)
    decided = n["ok"] + n["violated"]
    ev = {
        "property": pid,
        "tier": os.environ.get("VERIF_TIER", "quick"),
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: every path of the listed "
                           "functions was enumerated (calls to helpers expanded, loops by their "
                           "generic iteration, handlers and context managers followed) and the "
                           "listed rules were decided on all of them. Nothing was executed.",
            "rules": [{"rule": r, "text": t} for r, t, _ in PROPS.get(pid, [])],
            "functions_analysed": {k: v for k, v in sorted(ctx.funcs.items())},
            "modules_parsed": len(P.mods), "functions_known": len(P.funcs),
            "paths_enumerated": sum(ctx.funcs.values()),
            "obligations": n, "paths_decided": sum(o.n for o in ctx.obs if o.status == "ok"),
            "obligation_list": [{"rule": o.rule, "construct": o.construct, "status": o.status,
                                 "where": o.where, "paths": o.n, "what": o.msg} for o in ctx.obs],
        },
        "wall_s": round(wall, 3),
        "assumptions": [
            "source is valid Python; builtins, the standard library and persidict, joblib, "
            "deepdiff, autopep8, pandas behave as documented",
            "no monkey patching of the library's own classes",
            "undecided obligations are not claimed",
        ],
        "violations": [{"rule": o.rule, "construct": o.construct, "where": o.where, "what": o.msg,
                        "key": o.key, "known": (pid, o.key) in kf} for o in viol + known],
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if os.environ.get("VSTAT_DEBUG"):
        for o in ctx.obs:
            if o.status == "undecided":
                print(f"  undecided [{o.rule}] {o.construct}: {o.msg} ({o.where})")
    for o in known:
        print(f"KNOWN-FINDING: property={pid} {kf[(pid, o.key)]}")
    if viol:
        with open(rp, "w") as fh:
            for o in viol:
                fh.write(f"[{o.rule}] {o.construct}\n  at {o.where}\n  {o.msg}\n")
                if o.path:
                    fh.write("  path:\n" + "\n".join("    " + l for l in o.path.splitlines()) + "\n")
                fh.write("\n")
        for o in viol[:6]:
            print(f"  [{o.rule}] {o.construct}: {o.msg} ({o.where})")
        print(f"VIOLATION property={pid} replay={os.path.relpath(rp, HERE)}")
        return 1
    fl = floors.get(pid, 0)
    print(f"{pid}: {n['ok']} obligations hold, {n['undecided']} undecided, "
          f"{len(ctx.funcs)} functions, {wall:.2f}s")
    if not quiet:
        for o in ctx.obs:
            if o.status == "undecided":
                print(f"   undecided [{o.rule}] {o.construct}: {o.msg} ({o.where})")
    if decided < fl * 0.34:
        print(f"WARNING property={pid}: only {decided} obligations decided, {fl} expected")
    if not decided:
        print(f"ANALYSIS-BROKEN property={pid}: nothing could be decided")
        return 2
    return 0


def dump(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("func")
    p.add_argument("--cls")
    p.add_argument("--exc", default="handlers")
    p.add_argument("--default", default="private")
    p.add_argument("--inline", default="")
    p.add_argument("--opaque", default="")
    p.add_argument("-q", action="store_true")
    a = p.parse_args(argv)
    P = Project()
    f = P.func(a.func)
    it = Interp(P, Policy(exc=a.exc, default=a.default, inline=[x for x in a.inline.split(",") if x],
                          opaque=[x for x in a.opaque.split(",") if x]))
    ps = it.run(f, cls=P.cls(a.cls) if a.cls else None)
    print(len(ps), "paths")
    if not a.q:
        for x in ps:
            print(x.show())
    print("inlined", sorted(x.split(":")[-1] for x in it.inlined))
    print("opaque", sorted(x.split(":")[-1] for x in it.opaqued))
    return 0


def main(argv):
    if argv and argv[0] == "dump":
        return dump(argv[1:])
    if argv and argv[0] == "check":
        return check(argv[1:])
    if argv and argv[0] == "gen":
        from .gen import gen
        return gen()
    raise SystemExit("usage: python3 -m vstat check|dump|gen ...")
