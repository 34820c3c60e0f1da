"""Development self-test: apply small edits to a scratch copy of the library and
see which checks object.  Not used by any registered check.

mutant files: tools/mutants/*.txt, entries separated by lines of '=====':
  <bug|ok> <property[,property..]|all> <file glob>: <comment>
  <<<<
  old text
  ----
  new text
  >>>>
(several <<<< blocks may follow; a block may be preceded by 'FILE path'.)
usage: selftest.py [--ok|--bug] [filter ...]
"""
import sys, os, re, glob, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(HERE)
REPO = os.environ.get("SELFTEST_REPO", "/repo")


def load(names):
    out = []
    for fn in sorted(glob.glob(os.path.join(HERE, "mutants", "*.txt"))):
        for i, ent in enumerate(re.split(r"^=====.*\n", open(fn).read(), flags=re.M)):
            ent = ent.strip("\n")
            if not ent.strip():
                continue
            head, _, rest = ent.partition("\n")
            m = re.match(r"(bug|ok)\s+(\S+)\s+(\S+?)(?::\s*(.*))?$", head)
            if not m:
                raise SystemExit(f"bad header in {fn}: {head}")
            blocks, cur = [], m.group(3)
            for b in re.finditer(r"^(?:FILE (\S+)\n)?<<<<\n(.*?)\n----\n(.*?)\n?>>>>", rest, flags=re.M | re.S):
                cur = b.group(1) or cur
                blocks.append((cur, b.group(2), b.group(3)))
            out.append(dict(id=f"{os.path.basename(fn)[:-4]}#{i}", kind=m.group(1), pids=m.group(2).split(","),
                            note=m.group(4) or "", blocks=blocks))
    if names:
        out = [m for m in out if any(n in m["id"] or n in m["pids"] for n in names)]
    return out


def run(m):
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "pythagoras"), os.path.join(d, "pythagoras"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("pyproject.toml", "setup.py"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), d)
        for g, old, new in m["blocks"]:
            fs = [x for x in glob.glob(os.path.join(d, "pythagoras", "**", g), recursive=True)
                  if "OLD" not in x and "_000_tests" not in x]
            if len(fs) != 1:
                return m, "ERR", f"{g}: {len(fs)} files"
            s = open(fs[0], newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return m, "ERR", f"{g}: text occurs {s.count(old)} times: {old[:60]!r}"
            s = s.replace(old, new)
            try:
                compile(s, fs[0], "exec")
            except SyntaxError as e:
                return m, "ERR", str(e)
            open(fs[0], "w", newline="").write(s)
        env = dict(os.environ, VSTAT_REPO=d, VSTAT_EVIDENCE=os.path.join(d, "ev"))
        pids = m["pids"] if m["pids"] != ["all"] else ["all"]
        if m["kind"] == "ok":
            pids = ["all"]
        r = subprocess.run([sys.executable, "-m", "vstat", "check", *pids, "-v"], cwd=VER, env=env,
                           capture_output=True, text=True, timeout=1200)
        viol = re.findall(r"VIOLATION property=(\S+)", r.stdout)
        if r.returncode not in (0, 1):
            return m, "BAD", r.stdout[-1500:] + r.stderr[-800:]
        want = m["kind"] == "bug"
        crash = re.findall(r".*rule not applicable.*(?:TypeError|NameError|AttributeError|KeyError|IndexError|ValueError).*", r.stdout)
        if crash:
            return m, "CRASH", "  [" + crash[0]
        return m, ("good" if bool(viol) == want else "MISSED" if want else "ALARM"), r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    v = "-v" in sys.argv
    ms = load([a for a in sys.argv[1:] if not a.startswith("-")])
    if "--ok" in sys.argv or "--bug" in sys.argv:
        ms = [m for m in ms if "--" + m["kind"] in sys.argv]
    n = {}
    with ThreadPoolExecutor(8) as ex:
        for m, st, out in ex.map(run, ms):
            n[st] = n.get(st, 0) + 1
            if st != "good" or v:
                print(f"{st} {m['id']} {m['kind']} {','.join(m['pids'])} {m['note']}")
                if st in ("ERR", "BAD", "ALARM", "CRASH") or v:
                    print("    " + "\n    ".join(l for l in out.splitlines() if l.startswith("  [")
                                                 or st in ("ERR", "BAD")))
    print(n)


main()
