"""Fills the generated sections of DESIGN.md (properties, planted bugs)."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vstat import rules, spec
from vstat.rules import PROPS

rules.load()


def props():
    out = []
    for s in spec.SPEC:
        pid = s["pid"]
        out.append(f"### {pid} {s['title']}\n")
        out.append(f"*Decided by:* {s['technique']}.\n")
        out.append(f"*What is decided:* {s['decides']}\n")
        out.append(f"*Ranges over:* {s['text']}. *Why tests cannot:* {s['why']}\n")
        if s.get("note"):
            out.append(f"*Note:* {s['note']}\n")
        out.append("*Code:* " + ", ".join("`" + f.replace("pythagoras/", "") + "`" for f in s["files"]) + ". "
                   "*Rules* (`vstat/rules/" + PROPS[pid][0][2].__module__.split(".")[-1] + ".py`):\n")
        out += [f"- `{n}`: {t}" for n, t, _ in PROPS[pid]]
        out.append("")
    out.append("### Not applicable\n")
    for n in spec.NOT_APPLICABLE:
        out.append(f"- **{n['pid']} {n['title']}.** {n['reason']}")
    return "\n".join(out)


def seeds():
    res = {}
    p = os.path.join(HERE, "tools", "seeds.json")
    if os.path.exists(p):
        res = json.load(open(p))
    out = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*"))):
        m = json.load(open(d + "/meta.json"))
        b = os.path.basename(d)
        out.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(res.get(b, [])) or 'not caught'} |")
    return "\n".join(out)


def mutants():
    n = {}
    for f in glob.glob(os.path.join(HERE, "tools", "mutants", "*.txt")):
        for l in open(f):
            m = re.match(r"(bug|ok) ([C\d,]+) ", l)
            if m:
                for p in m.group(2).split(","):
                    n.setdefault(p, [0, 0])[m.group(1) == "ok"] += 1
    tot = [sum(v[k] for v in n.values()) for k in (0, 1)]
    return (f"In all {tot[0]} breaking and {tot[1]} harmless edits (some count for several properties); breaking/harmless per property: "
            + ", ".join(f"{p} {v[0]}/{v[1]}" for p, v in sorted(n.items())) + ".")


def main():
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    for name, fn in (("properties", props), ("seeds", seeds), ("mutants", mutants)):
        a, b = f"<!-- {name}:begin -->", f"<!-- {name}:end -->"
        assert a in s and b in s, name
        s = s[:s.index(a) + len(a)] + "\n" + fn() + "\n" + s[s.index(b):]
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
