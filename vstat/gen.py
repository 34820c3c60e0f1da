"""Writes properties.jsonl, MANIFEST.json and floors.json from spec.py."""
from __future__ import annotations
import json
import os
from .cli import HERE, run_property
from .project import Project


def gen():
    from . import spec, rules
    from .rules import PROPS
    rules.load()
    lines, checks, na = [], [], []
    claimed = [x for x in spec.SPEC if x["pid"] in PROPS]
    missing = sorted(set(PROPS) - {x["pid"] for x in spec.SPEC})
    if missing:
        print("no text for", missing)

    def line(x):
        assert len(x["title"]) <= 80, (x["pid"], len(x["title"]))
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["pid"], n)
        return json.dumps({
            "id": x["pid"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in x["mech"]]}})
    for x in sorted(claimed, key=lambda x: x["pid"]):
        lines.append(line(x))
        cmd = f"python3 -m vstat check {x['pid']}"
        checks.append({
            "property": x["pid"], "quick_cmd": cmd, "thorough_cmd": cmd,
            "technique": "static analysis: " + x["technique"], "level": "other",
            "level_note": x["decides"] + (" " + x["note"] if x["note"] else "") +
            " Decided from the source on every run, nothing is executed; paths that the interpreter cannot "
            "follow precisely are reported as undecided and not claimed. Trusted: the semantics given to Python "
            "statements by the interpreter, the documented behaviour of the standard library and of persidict, "
            "joblib, deepdiff, autopep8."})
    for x in spec.NOT_APPLICABLE:
        lines.append(line(x))
        na.append({"property": x["pid"], "reason": x["reason"]})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        fh.write("\n".join(lines) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "python3 -c \"import vstat.rules as r; r.load()\"",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo. The same analysis serves both tiers: it is complete for the rules "
                            "it has, and takes seconds."}, fh, indent=1)
    P = Project()
    fl = {}
    for x in claimed:
        ctx = run_property(P, x["pid"])
        fl[x["pid"]] = len([o for o in ctx.obs if o.status != "undecided"])
    with open(os.path.join(HERE, "vstat", "floors.json"), "w") as fh:
        json.dump(fl, fh, indent=1, sort_keys=True)
    print(len(checks), "checks;", len(na), "not applicable")
    return 0
