"""Systematic mutation of the library: which small changes does no check see?

  python3 tools/automut.py [-n COUNT] [-s SEED] [-f FILE-SUBSTRING] [-o OUT]

Development aid only.  Each mutant changes one construct of one file in a
scratch copy; the survivors are read by hand to find clauses of the stated
properties that no rule looks at.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactor import files, REPO, VER


def docstring(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def variants(node, infn):
    """[(what, fn(node) -> new node / list / None)] for one node."""
    out = []
    if isinstance(node, ast.stmt) and infn and not docstring(node) and not isinstance(
            node, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
        if not isinstance(node, (ast.With, ast.Try, ast.If, ast.For, ast.While)):
            out.append(("del", lambda n: ast.copy_location(ast.Pass(), n)))
    if isinstance(node, ast.With):
        out.append(("unwith", lambda n: n.body if not any(i.optional_vars for i in n.items) else [ast.Assign(
            [i.optional_vars], i.context_expr, lineno=1) for i in n.items if i.optional_vars] + n.body))
    if isinstance(node, (ast.Assign, ast.Expr, ast.AugAssign, ast.Delete)) and infn and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        out.append(("swallow", lambda n: ast.Try([n], [ast.ExceptHandler(ast.Name("Exception", ast.Load()), None, [ast.Pass()])], [], [])))
    if isinstance(node, ast.If):
        def neg(n):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            return n

        def always(n):
            return n.body

        def never(n):
            return n.orelse or [ast.Pass()]
        out += [("neg", neg), ("always", always), ("never", never)]
    if isinstance(node, ast.While):
        def neg(n):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            return n
        out.append(("neg", neg))
    if isinstance(node, ast.For):
        def skip(n):
            n.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [n.iter], []),
                                   ast.Slice(ast.Constant(1), None, None), ast.Load())
            return n

        def one(n):
            n.body = n.body + [ast.Break()]
            return n
        out += [("skip1", skip), ("only1", one), ("del", lambda n: ast.Pass())]
    if isinstance(node, ast.Try):
        def nohandler(n):
            return n.body + n.orelse + n.finalbody
        out.append(("untry", nohandler))
        if node.finalbody:
            def nofin(n):
                if not n.handlers:
                    return n.body + n.finalbody
                n.finalbody = []
                return n
            out.append(("nofinally", nofin))
    if isinstance(node, ast.ExceptHandler):
        def wide(n):
            n.type = None
            n.name = None
            return n
        if node.type is not None and node.name is None:
            out.append(("wide", wide))

        def reraise(n):
            n.body = [ast.Raise(None, None)]
            return n
        out.append(("reraise", reraise))
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
        def sw(n):
            n.ops = [CMP[type(n.ops[0])]()]
            return n
        out.append(("cmp", sw))
    if isinstance(node, ast.BoolOp):
        def bo(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n
        out.append(("andor", bo))
        for k in range(len(node.values)):
            def drop(n, k=k):
                v = n.values[:k] + n.values[k + 1:]
                if len(v) == 1:
                    return v[0]
                n.values = v
                return n
            out.append((f"dropcond{k}", drop))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        out.append(("unnot", lambda n: n.operand))
    if isinstance(node, ast.BinOp):
        m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.Mod: ast.Add,
             ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.FloorDiv: ast.Mult}.get(type(node.op))
        if m:
            def bin_(n):
                n.op = m()
                return n
            out.append(("op", bin_))
        out.append(("left", lambda n: n.left))
        out.append(("right", lambda n: n.right))
    if isinstance(node, ast.Constant) and not isinstance(node.value, (bytes, type(...))):
        v = node.value
        if isinstance(v, bool):
            out.append(("const", lambda n: ast.Constant(not n.value)))
        elif isinstance(v, (int, float)):
            out.append(("const", lambda n: ast.Constant(n.value + 1)))
        elif isinstance(v, str):
            out.append(("const", lambda n: ast.Constant(n.value + "x")))
        elif v is None and infn:
            out.append(("const", lambda n: ast.Constant(1)))
    if isinstance(node, ast.Call):
        for k, a in enumerate(node.args):
            def da(n, k=k):
                n.args.pop(k)
                return n
            out.append((f"droparg{k}", da))
        for k, a in enumerate(node.keywords):
            def dk(n, k=k):
                n.keywords.pop(k)
                return n
            out.append((f"dropkw{k}", dk))
        if len(node.args) >= 2:
            def swp(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
                return n
            out.append(("swapargs", swp))
        if len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred) and isinstance(
                node.func, (ast.Name,)):
            out.append(("arg", lambda n: n.args[0]))
        if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
            out.append(("recv", lambda n: n.func.value))
    if isinstance(node, ast.Return) and node.value is not None:
        def rn(n):
            n.value = None
            return n
        out.append(("retnone", rn))
    if isinstance(node, ast.Break):
        out.append(("continue", lambda n: ast.Continue()))
    if isinstance(node, ast.Continue):
        out.append(("break", lambda n: ast.Break()))
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
        for k in range(len(node.elts)):
            def de(n, k=k):
                n.elts.pop(k)
                return n if n.elts or not isinstance(n, ast.Set) else ast.Call(ast.Name("set", ast.Load()), [], [])
            out.append((f"dropel{k}", de))
    if isinstance(node, ast.Dict):
        for k in range(len(node.keys)):
            def dd(n, k=k):
                n.keys.pop(k)
                n.values.pop(k)
                return n
            out.append((f"dropkey{k}", dd))
    if isinstance(node, ast.comprehension):
        for k in range(len(node.ifs)):
            def di(n, k=k):
                n.ifs.pop(k)
                return n
            out.append((f"dropif{k}", di))
    if isinstance(node, ast.FunctionDef) and node.decorator_list and infn != "top":
        for k, d in enumerate(node.decorator_list):
            t = ast.unparse(d)
            if "property" in t or "setter" in t or "method" in t:
                continue

            def dec(n, k=k):
                n.decorator_list.pop(k)
                return n
            out.append((f"dropdec{k}", dec))
    if isinstance(node, ast.IfExp):
        out += [("body", lambda n: n.body), ("orelse", lambda n: n.orelse)]
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
        out.append(("unslice", lambda n: n.value))
    return out


class Walk(ast.NodeTransformer):
    """Visits in a fixed order; applies the variant number `target`, or only counts."""

    def __init__(self, target=None):
        self.target, self.n, self.found, self.fn, self.list = target, 0, None, [], []

    def generic(self, node):
        return super().generic_visit(node)

    def visit(self, node):
        if isinstance(node, (ast.JoinedStr, ast.FormattedValue)):
            pass
        if isinstance(node, ast.arguments):
            node.defaults = [self.visit(d) for d in node.defaults]
            node.kw_defaults = [self.visit(d) if d else d for d in node.kw_defaults]
            return node
        if isinstance(node, ast.AnnAssign):
            if node.value is not None:
                node.value = self.visit(node.value)
            return self._one(node)
        if docstring(node):
            return node
        enter = isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
        r = self._one(node)
        if r is not node:
            return r
        if enter:
            self.fn.append(getattr(node, "name", "<lambda>"))
        if isinstance(node, ast.FunctionDef):
            node.returns, ret = None, node.returns
            node.args = self.visit(node.args)
            body = []
            for s in node.body:
                x = self.visit(s)
                body += x if isinstance(x, list) else [x]
            node.body, node.returns = body, ret
        else:
            node = self.generic(node)
        if enter:
            self.fn.pop()
        return node

    def _one(self, node):
        vs = variants(node, bool(self.fn))
        for what, fn in vs:
            if self.target is None:
                try:
                    t = ast.unparse(node).split("\n")[0][:110]
                except Exception:
                    t = "?"
                if isinstance(node, ast.comprehension):
                    ln = node.target.lineno
                else:
                    ln = getattr(node, "lineno", 0)
                self.list.append((self.n, ln, ".".join(self.fn), what, t))
            elif self.n == self.target:
                self.n += 1
                self.found = True
                r = fn(copy.deepcopy(node))
                return r
            self.n += 1
        return node


def enum(path):
    t = ast.parse(open(path).read())
    w = Walk()
    w.visit(t)
    return w.list


def apply(path, k):
    t = ast.parse(open(path).read())
    w = Walk(k)
    t = w.visit(t)
    assert w.found, (path, k)
    ast.fix_missing_locations(t)
    new = ast.unparse(t)
    compile(new, path, "exec")
    return new


def run(job):
    rel, k, ln, fn, what, text = job
    d = tempfile.mkdtemp(prefix="am_")
    try:
        shutil.copytree(REPO + "/pythagoras", d + "/pythagoras", ignore=shutil.ignore_patterns("__pycache__", "_000_tests", "*OLD*"))
        f = d + "/" + rel
        try:
            new = apply(f, k)
        except (SyntaxError, ValueError, AssertionError) as e:
            return job, "bad", []
        if ast.dump(ast.parse(new)) == ast.dump(ast.parse(open(f).read())):
            return job, "same", []
        open(f, "w").write(new)
        env = dict(os.environ, VSTAT_REPO=d, VSTAT_EVIDENCE=d)
        try:
            r = subprocess.run([sys.executable, "-m", "vstat", "check", "all"], cwd=VER, env=env, capture_output=True,
                               text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return job, "timeout", []
        vio = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        und = [l for l in r.stdout.splitlines() if "obligations hold" in l and " 0 undecided" not in l]
        if vio:
            return job, "killed", vio
        if und:
            return job, "undecided", [l.split(":")[0] for l in und]
        if r.returncode not in (0, 1):
            return job, "broken", [r.stdout[-200:] + r.stderr[-200:]]
        return job, "quiet", []
    finally:
        shutil.rmtree(d, ignore_errors=True)


def arg(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


if __name__ == "__main__":
    jobs = []
    for f in files(REPO):
        if arg("-f") and arg("-f") not in f:
            continue
        for k, ln, fn, what, text in enum(f):
            if not arg("-w") or what.startswith(arg("-w")):
                jobs.append((os.path.relpath(f, REPO), k, ln, fn, what, text))
    print(len(jobs), "mutants", file=sys.stderr)
    random.Random(int(arg("-s", "1"))).shuffle(jobs)
    if arg("-n"):
        jobs = jobs[:int(arg("-n"))]
    tot = {}
    out = open(arg("-o", "/tmp/am/out.jsonl"), "a")
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for job, st, info in ex.map(run, jobs):
            tot[st] = tot.get(st, 0) + 1
            out.write(json.dumps([st, info, *job]) + "\n")
            out.flush()
    print(tot)
