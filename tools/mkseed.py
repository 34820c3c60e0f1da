"""Development helper: turn an entry of tools/seeds.py into /verif/seeded/<id>/ and confirm it in a
scratch copy (demo passes on the unchanged tree, fails with the patch).  Not used by any check.
usage: mkseed.py [id ...]    (no id: all that do not exist yet)"""
import os, sys, json, shutil, subprocess, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(HERE)
sys.path.insert(0, HERE)
DEMO_SH = """#!/bin/bash
# run in the repository; exit 0 if the property holds
here="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
mkdir "$W/home" "$W/tmp"
HOME="$W/home" TMPDIR="$W/tmp" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES="" TF_CPP_MIN_LOG_LEVEL=3 \\
PYTHONPATH="$here/shim:$PWD" timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py" "$W/tmp"
rc=$?
rm -rf -- "$W"
exit $rc
"""


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def make(s):
    d = os.path.join(VER, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        t = os.path.join(tmp, "r")
        sh(["cp", "-a", "/repo", t])
        for rel, old, new in s["edits"]:
            fn = os.path.join(t, "pythagoras", rel)
            src = open(fn).read()
            if src.count(old) != 1:
                return f"{s['id']}: text occurs {src.count(old)} times in {rel}: {old[:60]!r}"
            open(fn, "w").write(src.replace(old, new))
        os.makedirs(d, exist_ok=True)
        patch = sh(["git", "-C", t, "diff"]).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(s["demo"]).lstrip("\n"))
        if os.path.exists(os.path.join(d, "shim")):
            shutil.rmtree(os.path.join(d, "shim"))
        shutil.copytree(os.path.join(HERE, "shim"), os.path.join(d, "shim"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh([os.path.join(d, "demo.sh")], cwd="/repo")
        b = sh([os.path.join(d, "demo.sh")], cwd=t)
        env = dict(os.environ, VSTAT_REPO=t, VSTAT_EVIDENCE=os.path.join(tmp, "ev"))
        c = sh([sys.executable, "-m", "vstat", "check", "all"], cwd=VER, env=env)
        hit = sorted({l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")})
        out = f"{s['id']} {s['property']}: clean={a.returncode} patched={b.returncode} caught by {hit}"
        if a.returncode:
            out += "\n  CLEAN FAILS " + (a.stdout + a.stderr)[-1500:]
        if b.returncode == 0:
            out += "\n  PATCHED PASSES " + (b.stdout + b.stderr)[-800:]
        else:
            out += "\n  " + (b.stderr.strip().splitlines() or [""])[-1][:200]
        if s["property"] not in hit:
            out += "\n  NOT CAUGHT by its property"
        return out, s["id"], hit
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    from seeds import SEEDS
    ids = sys.argv[1:]
    todo = [s for s in SEEDS if (s["id"] in ids if ids else
                                 not os.path.exists(os.path.join(VER, "seeded", s["id"])))]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(make, todo):
            if isinstance(r, str):
                print(r, flush=True)
                continue
            out, i, hit = r
            print(out, flush=True)
            f = os.path.join(HERE, "seeds.json")
            d = json.load(open(f)) if os.path.exists(f) else {}
            d[i] = hit
            json.dump(d, open(f, "w"), indent=1, sort_keys=True)
