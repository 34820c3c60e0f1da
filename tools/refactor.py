"""Development tool: apply behaviour preserving rewrites to every function of a
scratch copy of the library and see which checks object.  Not used by any
registered check.
usage: refactor.py [transformation ...] [--per-file]"""
import ast, copy, os, sys, glob, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VER = os.path.dirname(HERE)
REPO = os.environ.get("SELFTEST_REPO", "/repo")
N = [0]


def fresh(p="tmp_"):
    N[0] += 1
    return f"{p}{N[0]}"


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def funcs(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef,))]


def isdoc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


def has_yield(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f))


class Base(ast.NodeTransformer):
    def stmts(self, body):
        return body

    def generic_visit(self, node):
        super().generic_visit(node)
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(node, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                nb = self.stmts(b)
                setattr(node, fld, nb)
        return node


class RetVar(Base):
    """return E -> v = E; return v"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                v = fresh()
                out += [ast.Assign([name(v, ast.Store())], s.value), ast.Return(name(v))]
            else:
                out.append(s)
        return out


class InvertIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
        if n.orelse:
            return ast.If(t, n.orelse, n.body)
        return ast.If(t, [ast.Pass()], n.body)

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class ElseToEarly(Base):
    """if c: ...return else: B -> if c: ...return; B   and the other way round"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                out += [ast.If(s.test, s.body, []), *s.orelse]
            else:
                out.append(s)
        return out


class EarlyToElse(Base):
    def stmts(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and body[i + 1:]:
                return body[:i] + [ast.If(s.test, s.body, self.stmts(body[i + 1:]))]
        return body


class AssertToRaise(Base):
    def visit_Assert(self, n):
        self.generic_visit(n)
        t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
        return ast.If(t, [ast.Raise(ast.Call(name("AssertionError"), [n.msg] if n.msg else [], []), None)], [])


class RaiseToAssert(Base):
    pass


class TestVar(Base):
    """if E: -> c = E; if c:"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If):
                v = fresh("cond_")
                out += [ast.Assign([name(v, ast.Store())], s.test), ast.If(name(v), s.body, s.orelse)]
            else:
                out.append(s)
        return out


class NestAnd(Base):
    """if a and b: X (no else) -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            r = n.body
            for t in reversed(n.test.values):
                r = [ast.If(t, r, [])]
            return r[0]
        return n


class MergeIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
        return n


class BoolReturn(Base):
    """return a and b -> if not a: return a.. only for comparisons"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.BoolOp) and all(
                    isinstance(x, ast.Compare) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" for x in s.value.values):
                for t in s.value.values:
                    if isinstance(s.value.op, ast.And):
                        out.append(ast.If(ast.UnaryOp(ast.Not(), t), [ast.Return(ast.Constant(False))], []))
                    else:
                        out.append(ast.If(t, [ast.Return(ast.Constant(True))], []))
                out.append(ast.Return(ast.Constant(isinstance(s.value.op, ast.And))))
            elif isinstance(s, ast.Return) and isinstance(s.value, (ast.Compare,)) :
                out += [ast.If(s.value, [ast.Return(ast.Constant(True))], []), ast.Return(ast.Constant(False))]
            else:
                out.append(s)
        return out


class IfExpToIf(Base):
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                out.append(ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)]))
            elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                out.append(ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)]))
            else:
                out.append(s)
        return out


class IfToIfExp(Base):
    def stmts(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
                if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.Return) and s.orelse[0].value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
                    i += 1
                    continue
                if not s.orelse and i + 1 < len(body) and isinstance(body[i + 1], ast.Return) and body[i + 1].value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, body[i + 1].value)))
                    i += 2
                    continue
            if isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse) and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and len(s.body[0].targets) == 1 == len(s.orelse[0].targets):
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            else:
                out.append(s)
            i += 1
        return out


class Temps(Base):
    """arguments of the statement's outermost call get names first (order of evaluation kept for the rest)"""
    def stmts(self, body):
        out = []
        for s in body:
            c = None
            if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
                c = s.value
            if c is not None and not any(isinstance(a, ast.Starred) for a in c.args) and not any(k.arg is None for k in c.keywords) \
                    and not (isinstance(c.func, ast.Name) and c.func.id in ("super", "locals", "vars")) and isinstance(c.func, (ast.Name, ast.Attribute)) \
                    and (isinstance(c.func, ast.Name) or isinstance(c.func.value, ast.Name)):
                for i, a in enumerate(c.args):
                    if not isinstance(a, (ast.Constant, ast.Name)):
                        v = fresh("arg_")
                        out.append(ast.Assign([name(v, ast.Store())], a))
                        c.args[i] = name(v)
                for k in c.keywords:
                    if not isinstance(k.value, (ast.Constant, ast.Name)):
                        v = fresh("arg_")
                        out.append(ast.Assign([name(v, ast.Store())], k.value))
                        k.value = name(v)
            out.append(s)
        return out


class CompToLoop(Base):
    """x = [E for t in S if c] / return [..] -> loop (lists, sets and dicts)"""
    def stmts(self, body):
        out = []
        for s in body:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and len(v.generators) == 1:
                g = v.generators[0]
                r = fresh("acc_")
                ren = {n.id: fresh("it_") for n in ast.walk(g.target) if isinstance(n, ast.Name)}

                class R(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return ast.Name(ren.get(n.id, n.id), n.ctx)
                tgt = R().visit(copy.deepcopy(g.target))
                if isinstance(v, ast.DictComp):
                    init, st = ast.Dict([], []), ast.Assign([ast.Subscript(name(r), R().visit(v.key), ast.Store())], R().visit(v.value))
                else:
                    init = ast.List([], ast.Load()) if isinstance(v, ast.ListComp) else ast.Call(name("set"), [], [])
                    st = ast.Expr(ast.Call(ast.Attribute(name(r), "append" if isinstance(v, ast.ListComp) else "add", ast.Load()), [R().visit(v.elt)], []))
                inner = [st]
                for c in reversed(g.ifs):
                    inner = [ast.If(R().visit(c), inner, [])]
                out += [ast.Assign([name(r, ast.Store())], init), ast.For(tgt, g.iter, inner, [])]
                s.value = name(r)
            out.append(s)
        return out


class LoopToComp(Base):
    """x = []; for t in S: x.append(E) -> x = [E for t in S]"""
    def stmts(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.For) and not s.orelse and isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name) and len(s.body) == 1:
                x = p.targets[0].id
                b, ifs = s.body[0], []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                if any(isinstance(n, ast.Name) and n.id == x for i in ifs for n in ast.walk(i)):
                    out.append(s)
                    continue
                if isinstance(p.value, ast.List) and not p.value.elts and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) \
                        and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == x:
                    out[-1] = ast.Assign(p.targets, ast.ListComp(b.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)]))
                    continue
                if isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name) and b.targets[0].value.id == x \
                        and (isinstance(p.value, ast.Dict) and not p.value.keys or isinstance(p.value, ast.Call) and isinstance(p.value.func, ast.Name) and p.value.func.id == "dict" and not p.value.args and not p.value.keywords):
                    out[-1] = ast.Assign(p.targets, ast.DictComp(b.targets[0].slice, b.value, [ast.comprehension(s.target, s.iter, ifs, 0)]))
                    continue
            out.append(s)
        return out


class ForToWhile(Base):
    """for t in S: B -> it = iter(S); while True: try: t = next(it) except StopIteration: break; B"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse:
                i = fresh("iter_")
                out += [ast.Assign([name(i, ast.Store())], ast.Call(name("iter"), [s.iter], [])),
                        ast.While(ast.Constant(True), [ast.Try([ast.Assign([s.target], ast.Call(name("next"), [name(i)], []))],
                                  [ast.ExceptHandler(name("StopIteration"), None, [ast.Break()])], [], []), *s.body], [])]
            else:
                out.append(s)
        return out


class ForIndex(Base):
    """for t in S -> for i in range(len(S)): t = S[i], S a list"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and not isinstance(s.iter, (ast.GeneratorExp,)):
                l, i = fresh("lst_"), fresh("i_")
                out += [ast.Assign([name(l, ast.Store())], ast.Call(name("list"), [s.iter], [])),
                        ast.For(name(i, ast.Store()), ast.Call(name("range"), [ast.Call(name("len"), [name(l)], [])], []),
                                [ast.Assign([s.target], ast.Subscript(name(l), name(i), ast.Load())), *s.body], [])]
            else:
                out.append(s)
        return out


class WhileIndex(Base):
    """for t in S -> i = 0; while i < len(S): t = S[i]; i += 1; B, S a list"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse:
                l, i = fresh("lst_"), fresh("i_")
                out += [ast.Assign([name(l, ast.Store())], ast.Call(name("list"), [s.iter], [])),
                        ast.Assign([name(i, ast.Store())], ast.Constant(0)),
                        ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name("len"), [name(l)], [])]),
                                [ast.Assign([s.target], ast.Subscript(name(l), name(i), ast.Load())), ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1)), *s.body], [])]
            else:
                out.append(s)
        return out


class ForList(Base):
    """for t in S -> for t in list(S)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(name("list"), [n.iter], [])
        return n


class Noop(Base):
    def stmts(self, body):
        return [x for s in body for x in ([s] if isdoc(s) or isinstance(s, ast.ImportFrom) else [ast.Assign([name("_noop", ast.Store())], ast.Constant(0)), s])]


class Augment(Base):
    """x += e -> x = x + e"""
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) or isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name):
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


class FStr(Base):
    """f-string -> concatenation"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.conversion == -1 and v.format_spec is None:
                parts.append(ast.Call(name("str"), [v.value], []))
            else:
                parts.append(ast.JoinedStr([v]))
        r = parts[0] if parts else ast.Constant("")
        for q in parts[1:]:
            r = ast.BinOp(r, ast.Add(), q)
        return r

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n


class CatToF(Base):
    """a + 'text' -> f'{a}text'"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            return ast.JoinedStr([x if isinstance(x, ast.Constant) else ast.FormattedValue(x, -1, None) for x in (n.left, n.right)])
        return n


class DictCall(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and all(k.arg for k in n.keywords):
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
        return n


class YodaNone(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant):
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        return n


class NotIn(Base):
    """a not in b -> not (a in b), a != b -> not a == b, is not -> not is; a < b -> b > a"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            m = {ast.NotIn: ast.In, ast.NotEq: ast.Eq, ast.IsNot: ast.Is}.get(type(n.ops[0]))
            if m:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m()], n.comparators))
            m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0]))
            if m:
                return ast.Compare(n.comparators[0], [m()], [n.left])
        return n


class TryFinallyWrap(Base):
    """whole body in try: ... finally: pass"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        d = f.body[:1] if isdoc(f.body[0]) else []
        b = f.body[len(d):]
        if b:
            f.body = d + [ast.Try(b, [], [], [ast.Pass()])]
        return f


class IfTrue(Base):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        d = f.body[:1] if isdoc(f.body[0]) else []
        b = f.body[len(d):]
        if b:
            f.body = d + [ast.If(ast.Constant(True), b, [])]
        return f


class Rename(ast.NodeTransformer):
    """local variables (no parameters) get new names"""
    def visit_FunctionDef(self, f):
        inner = {id(x) for n in ast.walk(f) if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(n)}
        params = {a.arg for n in ast.walk(f) if isinstance(n, ast.arguments) for a in n.posonlyargs + n.args + n.kwonlyargs + [x for x in (n.vararg, n.kwarg) if x]}
        glob_ = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inner} - params - glob_
        loc -= {n.name for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        loc -= {a.asname or a.name.split(".")[0] for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        loc = {x for x in loc if not any(isinstance(n, ast.ExceptHandler) and n.name == x for n in ast.walk(f))}
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "exec", "eval") for n in ast.walk(f)):
            return f
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_renamed"
        return f


class ExtractTail(ast.NodeTransformer):
    """body after the docstring goes to a nested helper called at once"""
    def visit_FunctionDef(self, f):
        if has_yield(f) or any(isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__", "exec", "eval", "globals") or isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(f)):
            return f
        d = f.body[:1] if isdoc(f.body[0]) else []
        b = f.body[len(d):]
        stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        params = {a.arg for n in ast.walk(f.args) if isinstance(n, ast.arg) for a in [n]}
        if not b or stored & params or any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in b):
            return f
        h = fresh("helper_")
        f.body = d + [ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), b, [], None, None, type_params=[]),
                      ast.Return(ast.Call(name(h), [], []))]
        return f


class ExtractMethod(ast.NodeTransformer):
    """body of every method/function moves to a helper method/function with the same parameters"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                nb = []
                for x in s.body:
                    nb.append(x)
                    if isinstance(x, ast.FunctionDef):
                        h = self.split(x, s)
                        if h is not None:
                            nb.insert(len(nb) - 1, h)
                s.body = nb
                out.append(s)
            elif isinstance(s, ast.FunctionDef):
                h = self.split(s, None)
                if h is not None:
                    out.append(h)
                out.append(s)
            else:
                out.append(s)
        m.body = out
        return m

    def split(self, f, cls):
        a = f.args
        if has_yield(f) or a.posonlyargs or any(isinstance(n, ast.Name) and n.id in ("locals", "exec", "eval") for n in ast.walk(f)):
            return None
        decs = [ast.unparse(d) for d in f.decorator_list]
        if any(not (d in ("property", "classmethod", "staticmethod", "abstractmethod") or d.endswith(".setter")) for d in decs):
            return None
        d = f.body[:1] if isdoc(f.body[0]) else []
        b = f.body[len(d):]
        if len(b) < 1 or any(isinstance(x, ast.Name) and x.id == "__class__" for x in ast.walk(f)):
            return None
        h = ast.FunctionDef(f"_{f.name.strip('_')}_{fresh('impl')}", ast.arguments([], [ast.arg(x.arg, None) for x in a.args], a.vararg and ast.arg(a.vararg.arg), [ast.arg(x.arg) for x in a.kwonlyargs],
                            [None] * len(a.kwonlyargs), a.kwarg and ast.arg(a.kwarg.arg), []), b, [], None, None, type_params=[])
        if cls is None:
            fn, args = name(h.name), a.args
        elif "staticmethod" in decs:
            h.decorator_list = [name("staticmethod")]
            fn, args = ast.Attribute(name(cls.name), h.name, ast.Load()), a.args
        else:
            if "classmethod" in decs or f.name in ("__new__", "__init_subclass__"):
                h.decorator_list = [name("classmethod")]
            fn, args = ast.Attribute(name(a.args[0].arg), h.name, ast.Load()), a.args[1:]
        call = ast.Call(fn, [name(x.arg) for x in args] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                        [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
        f.body = d + [ast.Return(call) if any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(h)) else ast.Expr(call)]
        return h


class ExtractBlock(ast.NodeTransformer):
    """the body of every loop / if / with without control flow and local stores moves to a nested helper"""
    def visit_FunctionDef(self, f):
        if has_yield(f) or any(isinstance(n, ast.Name) and n.id in ("super", "locals", "exec", "eval") for n in ast.walk(f)):
            return f
        out = []
        for s in f.body:
            if isinstance(s, (ast.For, ast.With, ast.If)) and not any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Nonlocal, ast.Global)) for x in s.body for n in ast.walk(x)) \
                    and not any(isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) for x in s.body for n in ast.walk(x)) \
                    and not any(isinstance(n, (ast.Import, ast.ImportFrom)) for x in s.body for n in ast.walk(x)):
                h = fresh("step_")
                out.append(ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), s.body, [], None, None, type_params=[]))
                s.body = [ast.Expr(ast.Call(name(h), [], []))]
            out.append(s)
        f.body = out
        return f


class WithToTry(Base):
    """with A: B -> m = A; m.__enter__(); try: B except BaseException: if not m.__exit__(*sys.exc_info()): raise; else: m.__exit__(None, None, None)   (ExitStack form)"""
    def stmts(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.With) and len(s.items) == 1:
                k = fresh("stack_")
                call = ast.Call(ast.Attribute(name(k), "enter_context", ast.Load()), [s.items[0].context_expr], [])
                first = ast.Assign([s.items[0].optional_vars], call) if s.items[0].optional_vars else ast.Expr(call)
                out.append(ast.With([ast.withitem(ast.Call(ast.Attribute(ast.Call(name("__import__"), [ast.Constant("contextlib")], []), "ExitStack", ast.Load()), [], []), name(k, ast.Store()))], [first, *s.body]))
            else:
                out.append(s)
        return out


class SplitWith(Base):
    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.items) > 1:
            b = n.body
            for i in reversed(n.items):
                b = [ast.With([i], b)]
            return b[0]
        return n


class JoinWith(Base):
    def visit_With(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.With):
            return ast.With(n.items + n.body[0].items, n.body[0].body)
        return n


class KwToPos(ast.NodeTransformer):
    """keyword arguments of calls of library functions/classes with unique names are passed by position and vice versa"""
    SIGS = {}

    def visit_Call(self, n):
        self.generic_visit(n)
        fn = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
        s = self.SIGS.get(fn)
        if s is None or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return n
        ps, meth = s
        if meth and isinstance(n.func, ast.Name):
            return n
        if any(k.arg not in ps for k in n.keywords) or len(n.args) > len(ps):
            return n
        kws = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
        if n.args:
            return ast.Call(n.func, [], kws)
        d = {k.arg: k.value for k in n.keywords}
        if list(d) == ps[:len(d)]:
            return ast.Call(n.func, [d[p] for p in ps[:len(d)]], [])
        return n


class SwapAdj(Base):
    """adjacent simple assignments of call-free expressions to different names are swapped"""
    def stmts(self, body):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute))
                   and not any(isinstance(n, (ast.Call, ast.Await, ast.Yield)) for n in ast.walk(x)) for x in (a, b)):
                ra, rb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
                if ra not in ast.unparse(b) and rb not in ast.unparse(a):
                    out[i], out[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return out


class AliasSelf(Base):
    """me = self at the top; attributes via me"""
    def visit_FunctionDef(self, f):
        if not f.args.args or f.args.args[0].arg != "self" or any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(f)) or any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f for n in ast.walk(f)):
            return f
        d = f.body[:1] if isdoc(f.body[0]) else []
        for s in f.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id == "self":
                    n.id = "me"
        f.body = d + [ast.Assign([name("me", ast.Store())], name("self"))] + f.body[len(d):]
        return f


class Walrus(Base):
    """x = E; if <test using x first>: -> left alone;  return x after x = E -> return E"""
    def stmts(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and isinstance(p, ast.Assign) and len(p.targets) == 1 \
                    and isinstance(p.targets[0], ast.Name) and p.targets[0].id == s.value.id:
                out[-1] = ast.Return(p.value)
            else:
                out.append(s)
        return out


class InlineTemp(Base):
    """v = E; stmt using v exactly once, as first evaluated -> inlined (only if v is used once in the function)"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        uses = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                uses.setdefault(n.id, []).append(n)
        def go(body):
            out = []
            for s in body:
                for fld in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, fld, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        setattr(s, fld, go(getattr(s, fld)))
                p = out[-1] if out else None
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.If, ast.For)):
                    v = p.targets[0].id
                    e = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else s.test if isinstance(s, ast.If) else s.iter
                    if len(uses.get(v, [])) == 2 and e is not None:
                        first = [n for n in ast.walk(e) if isinstance(n, ast.Name) and n.id == v]
                        calls = [n for n in ast.walk(e) if isinstance(n, (ast.Call, ast.Subscript))]
                        if len(first) == 1 and isinstance(e, ast.Call) and (first[0] in e.args[:1] or isinstance(e.func, ast.Attribute) and e.func.value is first[0]) and len(calls) == 1:
                            class R(ast.NodeTransformer):
                                def visit_Name(self, n):
                                    return p.value if n is first[0] else n
                            R().visit(s)
                            out[-1] = s
                            continue
                out.append(s)
            return out
        f.body = go(f.body)
        return f


class Unparse(ast.NodeTransformer):
    pass


class TupleAssign(Base):
    """a = x; b = y (call free, independent) -> a, b = x, y"""
    def stmts(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            ok = lambda x: isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute))
            if ok(s) and p is not None and ok(p) and not any(isinstance(n, ast.Call) for n in ast.walk(s)):
                ra = ast.unparse(p.targets[0])
                if ra not in ast.unparse(s) and ast.unparse(s.targets[0]) not in ast.unparse(p):
                    out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()))
                    continue
            out.append(s)
        return out


class GetattrStr(ast.NodeTransformer):
    """self._x (load) -> getattr(self, '_x')"""
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr.startswith("_") and not n.attr.startswith("__"):
            return ast.Call(name("getattr"), [n.value, ast.Constant(n.attr)], [])
        return n


class SuperExplicit(ast.NodeTransformer):
    """super().f(..) -> super(Cls, self).f(..)"""
    def visit_ClassDef(self, c):
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args:
                for n in ast.walk(f):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
                        n.args = [name(c.name), name(f.args.args[0].arg)]
        return c


class ItemsToKeys(Base):
    """for k, v in d.items(): B -> for k in d: v = d[k]; B (d a name or attribute)"""
    def visit_For(self, n):
        self.generic_visit(n)
        i = n.iter
        if isinstance(i, ast.Call) and isinstance(i.func, ast.Attribute) and i.func.attr == "items" and not i.args and isinstance(n.target, ast.Tuple) \
                and isinstance(n.target.elts[0], ast.Name) and isinstance(i.func.value, (ast.Name, ast.Attribute)):
            n.body = [ast.Assign([n.target.elts[1]], ast.Subscript(i.func.value, name(n.target.elts[0].id), ast.Load()))] + n.body
            n.iter, n.target = copy.deepcopy(i.func.value), n.target.elts[0]
        return n


class CatchBase(Base):
    """except: -> except BaseException:"""
    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = name("BaseException")
        return n


class IsinstTuple(Base):
    """isinstance(x, T) -> isinstance(x, (T,))"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "issubclass") and not isinstance(n.args[1], ast.Tuple):
            n.args[1] = ast.Tuple([n.args[1]], ast.Load())
        return n


class IsinstSplit(Base):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], x], []) for x in n.args[1].elts])
        return n


class LenZero(Base):
    """len(x) == 0 -> not len(x); len(x) > 0 -> len(x) >= 1"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "len" and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
            if isinstance(n.ops[0], ast.Eq):
                return ast.UnaryOp(ast.Not(), n.left)
            if isinstance(n.ops[0], ast.Gt):
                return ast.Compare(n.left, [ast.GtE()], [ast.Constant(1)])
        return n


class DeMorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))


class DeMorganTests(Base):
    """only where the truth value is used"""
    def m(self, t):
        if isinstance(t, ast.BoolOp):
            op = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.m(n.test)
        return n

    def visit_Assert(self, n):
        self.generic_visit(n)
        n.test = self.m(n.test)
        return n


class ModuleConst(ast.NodeTransformer):
    """string and number constants in function bodies move to module constants"""
    def visit_Module(self, m):
        consts = {}

        class V(ast.NodeTransformer):
            def visit_Expr(self, n):
                return n if isinstance(n.value, ast.Constant) else self.generic_visit(n)

            def visit_JoinedStr(self, n):
                return n

            def visit_Constant(self, n):
                if isinstance(n.value, (str, int, float)) and not isinstance(n.value, bool):
                    k = (type(n.value), n.value)
                    if k not in consts:
                        consts[k] = f"_CONST_{len(consts)}"
                    return name(consts[k])
                return n
        for c in ast.walk(m):
            if isinstance(c, ast.FunctionDef):
                c.body = [V().visit(s) for s in c.body]
        at = 0
        for i, s in enumerate(m.body):
            if isinstance(s, ast.ImportFrom) and s.module == "__future__" or i == 0 and isdoc(s):
                at = i + 1
        m.body[at:at] = [ast.Assign([name(v, ast.Store())], ast.Constant(k[1])) for k, v in consts.items()]
        return m


class LocalImport(ast.NodeTransformer):
    pass


class ImportAs(ast.NodeTransformer):
    """import x -> import x as _x_mod"""
    def visit_Module(self, m):
        ren = {}
        for s in m.body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname is None and "." not in a.name:
                        a.asname = f"_{a.name}_module"
                        ren[a.name] = a.asname
        for n in ast.walk(m):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id = ren[n.id]
        return m


class StripAnn(ast.NodeTransformer):
    """annotations of parameters, results and local variables go"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.returns = None
        for a in ast.walk(f.args):
            if isinstance(a, ast.arg):
                a.annotation = None
        for n in ast.walk(f):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.ClassDef):
                    setattr(n, fld, [ast.Assign([x.target], x.value) if isinstance(x, ast.AnnAssign) and x.value is not None else ast.Pass() if isinstance(x, ast.AnnAssign) else x for x in b])
        return f


class StripDoc(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if isdoc(f.body[0]):
            f.body = f.body[1:] or [ast.Pass()]
        return f


class MethodOrder(ast.NodeTransformer):
    def visit_ClassDef(self, c):
        fs = [x for x in c.body if isinstance(x, ast.FunctionDef)]
        names = [x.name for x in fs]
        if len(set(names)) != len(names):
            return c
        it = iter(reversed(fs))
        c.body = [next(it) if isinstance(x, ast.FunctionDef) else x for x in c.body]
        return c


class SuperToBase(ast.NodeTransformer):
    """super().m(a) -> Base.m(self, a) (one base class of the package)"""
    def visit_ClassDef(self, c):
        if len(c.bases) != 1:
            return c
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and not any("classmethod" in ast.unparse(d) for d in f.decorator_list) and f.name != "__new__":
                for n in ast.walk(f):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super" and not n.func.value.args:
                        n.func.value = copy.deepcopy(c.bases[0])
                        n.args.insert(0, name(f.args.args[0].arg))
        return c


class IfNone(Base):
    """if x is None: x = d -> x = d if x is None else x"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.body[0].targets[0], ast.Name) and isinstance(n.test, ast.Compare) \
                and isinstance(n.test.left, ast.Name) and n.test.left.id == n.body[0].targets[0].id:
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, name(n.test.left.id)))
        return n


class KeysIn(Base):
    """for k in d -> for k in d.keys() is not known to be a dict; x in self.a -> x in self.a (kept); d.keys() dropped"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "keys":
            n.iter = n.iter.func.value
        return n


class WhileTrue(Base):
    def visit_While(self, n):
        self.generic_visit(n)
        if not (isinstance(n.test, ast.Constant) and n.test.value) and not n.orelse:
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], []), *n.body], [])
        return n


class WhileCond(Base):
    def visit_While(self, n):
        self.generic_visit(n)
        b = n.body[0]
        if isinstance(n.test, ast.Constant) and n.test.value and isinstance(b, ast.If) and not b.orelse and len(b.body) == 1 and isinstance(b.body[0], ast.Break):
            return ast.While(ast.UnaryOp(ast.Not(), b.test), n.body[1:], [])
        return n


class Extend(Base):
    """for t in S: x.append(E) -> x.extend([E for t in S])"""
    def visit_For(self, n):
        self.generic_visit(n)
        b = n.body[0]
        if len(n.body) == 1 and not n.orelse and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == "append" \
                and isinstance(b.value.func.value, ast.Name):
            return ast.Expr(ast.Call(ast.Attribute(b.value.func.value, "extend", ast.Load()), [ast.ListComp(b.value.args[0], [ast.comprehension(n.target, n.iter, [], 0)])], []))
        return n


class AppendAug(Base):
    """x.append(e) -> x += [e]"""
    def visit_Expr(self, n):
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" and isinstance(v.func.value, ast.Name) and len(v.args) == 1:
            return ast.AugAssign(ast.Name(v.func.value.id, ast.Store()), ast.Add(), ast.List([v.args[0]], ast.Load()))
        return n


class ReturnNone(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if not has_yield(f) and not isinstance(f.body[-1], (ast.Return, ast.Raise)):
            f.body.append(ast.Return(ast.Constant(None)))
        return f


class AnyAll(Base):
    """for t in S: if c: return True  /  return False -> return any(...)   (and all)"""
    def stmts(self, body):
        out = []
        i = 0
        while i < len(body):
            s = body[i]
            n = body[i + 1] if i + 1 < len(body) else None
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 \
                    and isinstance(s.body[0].body[0], ast.Return) and isinstance(s.body[0].body[0].value, ast.Constant) and isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) \
                    and {s.body[0].body[0].value.value, n.value.value} == {True, False}:
                t = s.body[0].test
                if n.value.value:
                    g = ast.Call(name("all"), [ast.GeneratorExp(ast.UnaryOp(ast.Not(), t), [ast.comprehension(s.target, s.iter, [], 0)])], [])
                else:
                    g = ast.Call(name("any"), [ast.GeneratorExp(t, [ast.comprehension(s.target, s.iter, [], 0)])], [])
                out.append(ast.Return(g))
                i += 2
                continue
            out.append(s)
            i += 1
        return out


class TryElse(Base):
    """try: A; return X  except..: the return moves into the else clause when X is a name"""
    def visit_Try(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) > 1 and isinstance(n.body[-1], ast.Return) and isinstance(n.body[-1].value, (ast.Name, ast.Constant, type(None))) and n.handlers:
            n.orelse = [n.body.pop()]
        return n


class Guarded(Base):
    """x = E; A -> (x := E) inside the following if test"""
    def stmts(self, body):
        out = []
        for s in body:
            p = out[-1] if out else None
            if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and isinstance(s.test, ast.Compare) \
                    and isinstance(s.test.left, ast.Name) and s.test.left.id == p.targets[0].id:
                out.pop()
                s.test.left = ast.NamedExpr(p.targets[0], p.value)
            out.append(s)
        return out


def free_locals(f, stmts):
    """names stored anywhere in f (incl. parameters) and read in stmts"""
    stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
    stored |= {n.name for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and n is not f}
    return stored


class ExtractSuffix(ast.NodeTransformer):
    """the second half of every method / function becomes a helper taking what it reads as parameters"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                nb = []
                for x in s.body:
                    h = self.split(x, s) if isinstance(x, ast.FunctionDef) else None
                    nb += [x] + ([h] if h is not None else [])
                s.body = nb
            elif isinstance(s, ast.FunctionDef):
                h = self.split(s, None)
                if h is not None:
                    out.append(h)
            out.append(s)
        m.body = out
        return m

    def cut(self, b):
        return len(b) // 2

    def split(self, f, cls):
        decs = [ast.unparse(d) for d in f.decorator_list]
        if has_yield(f) or any(not (d in ("property", "classmethod", "staticmethod") or d.endswith(".setter")) for d in decs):
            return None
        if any(isinstance(n, ast.Name) and n.id in ("locals", "exec", "eval", "__class__") for n in ast.walk(f)) or any(isinstance(n, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)) for n in ast.walk(f)):
            return None
        d = f.body[:1] if isdoc(f.body[0]) else []
        b = f.body[len(d):]
        k = self.cut(b)
        if k < 1 or k >= len(b):
            return None
        head, tail = b[:k], b[k:]
        if any(isinstance(n, ast.FunctionDef) for x in b for n in ast.walk(x)):
            return None
        allp = [a.arg for a in f.args.args + f.args.kwonlyargs] + [a.arg for a in (f.args.vararg, f.args.kwarg) if a]
        bound = set(allp) | {n.id for x in head for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        read = {n.id for x in tail for n in ast.walk(x) if isinstance(n, ast.Name)}
        if any(isinstance(n, ast.Delete) for x in b for n in ast.walk(x)) and any(isinstance(t, ast.Name) for x in b for n in ast.walk(x) if isinstance(n, ast.Delete) for t in n.targets):
            return None
        need = sorted(bound & read)
        # surely bound in the head
        sure = set(allp) | {t.id for x in head if isinstance(x, (ast.Assign, ast.AnnAssign)) for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Name)}
        if any(x not in sure for x in need):
            return None
        first = f.args.args[0].arg if cls is not None and "staticmethod" not in decs and f.args.args else None
        need = [x for x in need if x != first]
        h = ast.FunctionDef(f"_{f.name.strip('_')}_{fresh('rest')}", ast.arguments([], ([ast.arg(first)] if first else []) + [ast.arg(x) for x in need], None, [], [], None, []), tail, [], None, None, type_params=[])
        if cls is None:
            fn = name(h.name)
        elif first is None:
            h.decorator_list = [name("staticmethod")]
            fn = ast.Attribute(name(cls.name), h.name, ast.Load())
        else:
            if "classmethod" in decs or f.name == "__new__":
                h.decorator_list = [name("classmethod")]
            fn = ast.Attribute(name(first), h.name, ast.Load())
        call = ast.Call(fn, [name(x) for x in need], [])
        f.body = d + head + [ast.Return(call) if any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(h)) else ast.Expr(call)]
        return h


class ExtractPrefixless(ExtractSuffix):
    """everything after the first statement"""
    def cut(self, b):
        return 1


class ExtractLast(ExtractSuffix):
    """the last statement"""
    def cut(self, b):
        return len(b) - 1


class ExtractTest(ast.NodeTransformer):
    """every if / while / assert test becomes a helper taking what it reads as parameters"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                nb = []
                for x in s.body:
                    nb.append(x)
                    if isinstance(x, ast.FunctionDef):
                        nb += self.split(x, s)
                s.body = nb
            elif isinstance(s, ast.FunctionDef):
                out += self.split(s, None)
            out.append(s)
        m.body = out
        return m

    def split(self, f, cls):
        decs = [ast.unparse(d) for d in f.decorator_list]
        hs = []
        if any(isinstance(n, ast.FunctionDef) for n in ast.walk(f) if n is not f):
            return hs
        first = f.args.args[0].arg if cls is not None and "staticmethod" not in decs and f.args.args else None
        bound = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)} | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        bound |= {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler) and h.name}
        imported = {a.asname or a.name for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        for n in ast.walk(f):
            if isinstance(n, (ast.If, ast.While, ast.Assert)):
                t = n.test
                if isinstance(t, (ast.Constant, ast.Name)) or any(isinstance(x, (ast.NamedExpr, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)) or isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(t)):
                    continue
                read = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                if read & imported:
                    continue
                need = sorted(read & bound - {first})
                h = ast.FunctionDef(f"_{f.name.strip('_')}_{fresh('test')}", ast.arguments([], ([ast.arg(first)] if first else []) + [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(t)], [], None, None, type_params=[])
                if cls is None:
                    fn = name(h.name)
                elif first is None:
                    h.decorator_list = [name("staticmethod")]
                    fn = ast.Attribute(name(cls.name), h.name, ast.Load())
                else:
                    if "classmethod" in decs or f.name == "__new__":
                        h.decorator_list = [name("classmethod")]
                    fn = ast.Attribute(name(first), h.name, ast.Load())
                n.test = ast.Call(fn, [name(x) for x in need], [])
                hs.append(h)
        return hs


class ExtractBodies(ast.NodeTransformer):
    """bodies of loops, ifs, withs without control flow become methods / functions with parameters"""
    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.ClassDef):
                nb = []
                for x in s.body:
                    nb.append(x)
                    if isinstance(x, ast.FunctionDef):
                        nb += self.split(x, s)
                s.body = nb
            elif isinstance(s, ast.FunctionDef):
                out += self.split(s, None)
            out.append(s)
        m.body = out
        return m

    def split(self, f, cls):
        decs = [ast.unparse(d) for d in f.decorator_list]
        hs = []
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(f) if n is not f) or has_yield(f):
            return hs
        first = f.args.args[0].arg if cls is not None and "staticmethod" not in decs and f.args.args else None
        bound = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)} | {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        bound |= {h.name for h in ast.walk(f) if isinstance(h, ast.ExceptHandler) and h.name}
        for n in list(ast.walk(f)):
            if isinstance(n, (ast.If, ast.For, ast.While, ast.With)) and not (isinstance(n, ast.If) and n.orelse):
                b = n.body
                if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Global, ast.Import, ast.ImportFrom, ast.Delete)) or isinstance(x, ast.Raise) and x.exc is None
                       or isinstance(x, ast.Name) and (isinstance(x.ctx, ast.Store) or x.id in ("super", "__class__", "locals", "exec", "eval")) for s in b for x in ast.walk(s)) or isinstance(b[0], ast.Pass):
                    continue
                read = {x.id for s in b for x in ast.walk(s) if isinstance(x, ast.Name)}
                need = sorted(read & bound - {first})
                # only names surely bound here: parameters, loop targets, top level assignments
                h = ast.FunctionDef(f"_{f.name.strip('_')}_{fresh('step')}", ast.arguments([], ([ast.arg(first)] if first else []) + [ast.arg(x) for x in need], None, [], [], None, []), b, [], None, None, type_params=[])
                if cls is None:
                    fn = name(h.name)
                elif first is None:
                    h.decorator_list = [name("staticmethod")]
                    fn = ast.Attribute(name(cls.name), h.name, ast.Load())
                else:
                    if "classmethod" in decs or f.name == "__new__":
                        h.decorator_list = [name("classmethod")]
                    fn = ast.Attribute(name(first), h.name, ast.Load())
                n.body = [ast.Expr(ast.Call(fn, [name(x) for x in need], []))]
                hs.append(h)
        return hs


T = {c.__name__: c for c in list(globals().values()) if isinstance(c, type) and issubclass(c, ast.NodeTransformer) and c not in (Base, RaiseToAssert, LocalImport, DeMorgan)}


def sigs(files):
    d = {}
    for f in files:
        for c in ast.walk(ast.parse(open(f).read())):
            if isinstance(c, ast.ClassDef):
                i = [x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"]
                if i and not i[0].args.vararg:
                    d.setdefault(c.name, []).append(([a.arg for a in i[0].args.args[1:]], False))
                for x in c.body:
                    if isinstance(x, ast.FunctionDef) and not x.name.startswith("__") and not any("setter" in ast.unparse(q) for q in x.decorator_list):
                        st = any("staticmethod" in ast.unparse(q) for q in x.decorator_list)
                        d.setdefault(x.name, []).append(([a.arg for a in x.args.args[0 if st else 1:]], True))
        for x in ast.parse(open(f).read()).body:
            if isinstance(x, ast.FunctionDef):
                d.setdefault(x.name, []).append(([a.arg for a in x.args.args], False))
    return {k: v[0] for k, v in d.items() if all(x == v[0] for x in v) and k not in ("get", "update", "items", "keys", "clear", "run", "append", "execute")}


def files(root):
    return sorted(f for f in glob.glob(root + "/pythagoras/**/*.py", recursive=True) if "_000_tests" not in f and "OLD" not in f and "__pycache__" not in f)


def run(tn, only=None):
    d = tempfile.mkdtemp(prefix="rf_")
    try:
        shutil.copytree(REPO + "/pythagoras", d + "/pythagoras", ignore=shutil.ignore_patterns("__pycache__"))
        changed = 0
        fs = files(d)
        KwToPos.SIGS = sigs(fs)
        for f in fs:
            if only and not f.endswith(only):
                continue
            src = open(f).read()
            t = ast.parse(src)
            before = ast.dump(t)
            for x in tn.split("+"):
                t = T[x]().visit(t)
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
            compile(new, f, "exec")
            if ast.dump(ast.parse(new)) != before or tn == "Unparse":
                changed += 1
                open(f, "w").write(new)
        keep = os.environ.get("KEEP")
        if keep:
            shutil.rmtree(keep + "/pythagoras", ignore_errors=True)
            shutil.copytree(d + "/pythagoras", keep + "/pythagoras")
        if os.environ.get("NOCHECK"):
            return tn, changed, "", 0
        env = dict(os.environ, VSTAT_REPO=d, VSTAT_EVIDENCE=d)
        r = subprocess.run([sys.executable, "-m", "vstat", "check", "all"], cwd=VER, env=env, capture_output=True, text=True)
        return tn, changed, r.stdout + r.stderr[-800:], r.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(T)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for tn, ch, out, rc in ex.map(run, names):
            lines = out.splitlines()
            und = [l for l in lines if "undecided" in l and "obligations hold" in l and " 0 undecided" not in l]
            vio = [l for l in lines if l.startswith("VIOLATION") or l.startswith("  [")]
            brk = [l for l in lines if "ANALYSIS-BROKEN" in l or "Traceback" in l or "Error" in l]
            print(f"=== {tn}: {ch} files, rc {rc}, {len([l for l in lines if l.startswith('VIOLATION')])} violations, {sum(int(l.split(' hold, ')[1].split()[0]) for l in und)} undecided")
            for l in vio + brk:
                print("   ", l[:230])
            sys.stdout.flush()
