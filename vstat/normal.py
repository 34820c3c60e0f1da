"""Rewrites equivalent idioms into one form before anything is analysed.

Only rewrites that keep the behaviour exactly (for the built-in names, which the
package does not shadow):
  getattr(x, "name")                       -> x.name
  it = iter(S); while True: try: t = next(it) except StopIteration: break; B
  i = 0; while i < len(S): t = S[i]; i += 1; B      (i used for nothing else)
  for i in range(len(S)): t = S[i]; B               (likewise)
                                           -> for t in S: B
  with ExitStack() as s: ... s.enter_context(M) ... -> nested with blocks
  with suppress(E): B                      -> try: B except E: pass
"""
import ast
import copy


def _name(n, *ids):
    return isinstance(n, ast.Name) and n.id in ids


def _callee(c):
    f = c.func if isinstance(c, ast.Call) else None
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None


def _is_call(n, *names):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names


def _one_target(s):
    return s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else None


def _uses(node, v):
    return [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == v]


def _same(a, b):
    return ast.dump(a) == ast.dump(b)


def _load(n):
    n = copy.deepcopy(n)
    for x in ast.walk(n):
        if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)):
            x.ctx = ast.Load()
    return n


class Normal(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if _is_call(n, "getattr") and len(n.args) == 2 and not n.keywords and isinstance(n.args[1], ast.Constant) \
                and isinstance(n.args[1].value, str) and n.args[1].value.isidentifier():
            return ast.copy_location(ast.Attribute(n.args[0], n.args[1].value, ast.Load()), n)
        return n

    def generic_visit(self, node):
        super().generic_visit(node)
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(node, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, fld, self.block(b))
        return node

    # every statement list; nested lists are done already
    def block(self, body):
        out = []
        for s in body:
            r = self.loop(s, out)
            if r is None:
                r = self.stack(s)
            out.append(ast.fix_missing_locations(r) if r is not None else s)
        return out

    def _before(self, out, v, init):
        """Index of the assignment v = <init> among the statements before, if v is
        not used after it."""
        for k in range(len(out) - 1, -1, -1):
            if _name(_one_target(out[k]), v) if isinstance(out[k], ast.Assign) else False:
                return k if init(out[k].value) else None
            if _uses(out[k], v) or isinstance(out[k], (ast.While, ast.For, ast.Try, ast.With, ast.FunctionDef)):
                return None
        return None

    def loop(self, s, out):
        if isinstance(s, ast.While) and not s.orelse and s.body:
            b = s.body[0]
            # iterator
            if isinstance(s.test, ast.Constant) and s.test.value and isinstance(b, ast.Try) and len(b.body) == 1 and len(b.handlers) == 1 \
                    and not b.orelse and not b.finalbody and _name(b.handlers[0].type, "StopIteration") \
                    and len(b.handlers[0].body) == 1 and isinstance(b.handlers[0].body[0], ast.Break):
                t, v = _one_target(b.body[0]), getattr(b.body[0], "value", None)
                if t is not None and _is_call(v, "next") and len(v.args) == 1 and isinstance(v.args[0], ast.Name):
                    it = v.args[0].id
                    k = self._before(out, it, lambda e: _is_call(e, "iter") and len(e.args) == 1)
                    if k is not None and not any(_uses(x, it) for x in s.body[1:]) and s.body[1:]:
                        src = out.pop(k).value.args[0]
                        return ast.copy_location(ast.For(t, src, s.body[1:], []), s)
            # index
            t = s.test
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) \
                    and _is_call(t.comparators[0], "len") and len(t.comparators[0].args) == 1:
                i, src = t.left.id, t.comparators[0].args[0]
                step = [k for k, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and _name(x.target, i)
                        and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
                tgt = _one_target(b) if isinstance(b, ast.Assign) else None
                if len(step) == 1 and tgt is not None and self._item(b.value, src, i) and isinstance(src, ast.Name):
                    rest = [x for k, x in enumerate(s.body) if k not in (0, step[0])]
                    early = step[0] == 1
                    jumps = any(isinstance(n, ast.Continue) for x in rest for n in ast.walk(x))
                    changed = any(n.ctx.__class__ is not ast.Load for x in s.body for n in _uses(x, src.id))
                    if rest and not any(_uses(x, i) for x in rest) and (early or not jumps) and not changed:
                        k = self._before(out, i, lambda e: isinstance(e, ast.Constant) and e.value == 0)
                        if k is not None:
                            out.pop(k)
                            return ast.copy_location(ast.For(tgt, _load(src), rest, []), s)
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and _is_call(s.iter, "range") \
                and len(s.iter.args) == 1 and _is_call(s.iter.args[0], "len") and len(s.body) > 1:
            src, i, b = s.iter.args[0].args[0], s.target.id, s.body[0]
            tgt = _one_target(b) if isinstance(b, ast.Assign) else None
            if isinstance(src, ast.Name) and tgt is not None and self._item(b.value, src, i) and not any(_uses(x, i) for x in s.body[1:]) \
                    and not any(n.ctx.__class__ is not ast.Load for x in s.body for n in _uses(x, src.id)):
                return ast.copy_location(ast.For(tgt, _load(src), s.body[1:], []), s)
        return None

    @staticmethod
    def _item(e, src, i):
        return isinstance(e, ast.Subscript) and _same(e.value, src) and _name(e.slice, i)

    def stack(self, s):
        if not isinstance(s, ast.With) or len(s.items) != 1:
            return None
        c = s.items[0].context_expr
        n = _callee(c)
        if n == "suppress" and isinstance(c, ast.Call) and c.args and not c.keywords:
            t = c.args[0] if len(c.args) == 1 else ast.Tuple(list(c.args), ast.Load())
            h = ast.copy_location(ast.ExceptHandler(t, None, [ast.copy_location(ast.Pass(), s)]), s)
            return ast.copy_location(ast.Try(s.body, [h], [], []), s)
        if n != "ExitStack" or not isinstance(s.items[0].optional_vars, ast.Name):
            return None
        v = s.items[0].optional_vars.id

        def entered(x):
            e = x.value if isinstance(x, (ast.Expr, ast.Assign)) else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and _name(e.func.value, v) and e.func.attr == "enter_context" and len(e.args) == 1:
                return e.args[0]
            return None

        def nest(body):
            for k, x in enumerate(body):
                m = entered(x)
                if m is not None:
                    t = _one_target(x) if isinstance(x, ast.Assign) else None
                    rest = nest(body[k + 1:]) or [ast.copy_location(ast.Pass(), x)]
                    return body[:k] + [ast.copy_location(ast.With([ast.withitem(m, t)], rest), x)]
            return body
        nb = nest(s.body)
        if any(_uses(x, v) for x in nb):
            return None
        return ast.copy_location(ast.If(ast.copy_location(ast.Constant(True), s), nb, []), s)


ONE_SHOT = {"iter", "map", "filter", "zip", "enumerate", "reversed"}
CONSUMERS = {"list", "tuple", "set", "frozenset", "sorted", "any", "all", "sum", "min", "max", "dict", "join", "extend", "update"}


def used_up(fn):
    """An iterator kept in a variable gives its elements once: every later or
    repeated iteration over it may find it used up (`x if _not_used_up else ()`)."""
    stores, loads = {}, {}

    def visit(n, where, parent):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            for x in ast.walk(n):           # a closure: not followed
                if isinstance(x, ast.Name):
                    stores.setdefault(x.id, []).append((None, where))
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                loads.setdefault(n.id, []).append((n, where, parent))
            else:
                v = None
                if isinstance(parent, ast.Assign) and len(parent.targets) == 1 and parent.targets[0] is n:
                    v = parent.value
                stores.setdefault(n.id, []).append((v, where))
            return
        for f, val in ast.iter_fields(n):
            for i, c in enumerate(val if isinstance(val, list) else [val]):
                if not isinstance(c, ast.AST):
                    continue
                w = where
                if isinstance(n, (ast.For, ast.While)) and f == "body" or isinstance(n, ast.While) and f == "test" or (
                        isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and (
                            f != "generators" or i > 0)):
                    w = where + (("loop", id(n)),)
                if isinstance(n, (ast.If, ast.IfExp)) and f in ("body", "orelse") or isinstance(n, ast.Try) and f == "handlers":
                    w = where + (("branch", id(n), f if not isinstance(n, ast.Try) else (f, i)),)
                visit(c, w, n)
    visit(fn, (), None)
    for name, st in stores.items():
        if len(st) != 1 or name not in loads:
            continue
        v, home = st[0]
        if not (isinstance(v, ast.GeneratorExp) or _is_call(v, *ONE_SHOT)):
            continue
        first = None
        for n, where, parent in loads[name]:
            if not (isinstance(parent, (ast.For, ast.comprehension)) and parent.iter is n
                    or isinstance(parent, ast.Call) and _callee(parent) in CONSUMERS and n in parent.args
                    or isinstance(parent, ast.Starred)):
                continue
            loops = [w for w in where if w[0] == "loop" and w not in home]
            again = first is not None and not any(
                a[0] == b[0] == "branch" and a[1] == b[1] and a[2] != b[2] for a in first for b in where)
            if first is None:
                first = where
            if loops or again:
                new = ast.IfExp(_load(ast.copy_location(ast.Name("_not_used_up", ast.Load()), n)), ast.Name(name, ast.Load()),
                                ast.Tuple([], ast.Load()))
                for x in ast.walk(new):
                    ast.copy_location(x, n)
                for f, val in ast.iter_fields(parent):
                    if val is n:
                        setattr(parent, f, new)
                    elif isinstance(val, list) and any(y is n for y in val):
                        val[[y is n for y in val].index(True)] = new


def normalise(tree):
    for x in list(ast.walk(tree)):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            used_up(x)
    return ast.fix_missing_locations(Normal().visit(tree))
