"""Notations and signatures (C40-C42)."""
import ast
from .base import *

ALPH = "0123456789abcdefghijklmnopqrstuv"


def ext_call(t, *names):
    return isinstance(t, tuple) and bool(t) and t[0] == "call" and t[1][0] == "ext" and t[1][1] in names


def numeral(n):
    s = ""
    while n > 0:
        s = ALPH[n % 32] + s
        n //= 32
    return s


SAMPLES = list(range(0, 4200)) + [2 ** k + d for k in (15, 31, 32, 63, 64, 100, 128, 255, 256, 300) for d in (-1, 0, 1)]


def fold(ctx, g):
    """Value of a module-level variable that is assigned once, or UNK."""
    for m in ctx.P.mods.values():
        if m.name == g[1]:
            break
    else:
        return UNK
    r = ctx.P.resolve(m, g[2])
    if not r or r[0] != "var" or r[3] is None or r[1].assign_count.get(r[2], 0) != 1:
        return UNK
    return fold_expr(ctx, r[1], r[3], {})


def fold_expr(ctx, m, e, env):
    """Constant folding of a module-level expression."""
    go = lambda x, en=env: fold_expr(ctx, m, x, en)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        return fold(ctx, ("gvar", m.name, e.id))
    if isinstance(e, ast.Attribute):
        import string
        if isinstance(e.value, ast.Name) and e.value.id == "string" and isinstance(getattr(string, e.attr, None), str):
            return getattr(string, e.attr)
        return UNK
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult, ast.Sub)):
        a, b = go(e.left), go(e.right)
        if a is UNK or b is UNK:
            return UNK
        try:
            return {ast.Add: lambda: a + b, ast.Mult: lambda: a * b, ast.Sub: lambda: a - b}[type(e.op)]()
        except Exception:
            return UNK
    if isinstance(e, ast.Subscript):
        a = go(e.value)
        if isinstance(e.slice, ast.Slice):
            k = [None if x is None else go(x) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if a is UNK or UNK in k:
                return UNK
            k = slice(*k)
        else:
            k = go(e.slice)
        try:
            return UNK if a is UNK or k is UNK else a[k]
        except Exception:
            return UNK
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
        a = [go(x) for x in e.args]
        if any(x is UNK for x in a):
            return UNK
        fs = {"enumerate": enumerate, "zip": zip, "range": range, "len": len, "dict": dict, "list": list, "tuple": tuple}
        try:
            v = fs[e.func.id](*a) if e.func.id in fs else UNK
            return list(v) if e.func.id in ("enumerate", "zip", "range") else v
        except Exception:
            return UNK
    if isinstance(e, ast.Dict) and all(e.keys):
        ks, vs = [go(x) for x in e.keys], [go(x) for x in e.values]
        return UNK if UNK in ks or any(v is UNK for v in vs) else dict(zip(ks, vs))
    if isinstance(e, ast.DictComp) and len(e.generators) == 1 and not e.generators[0].ifs:
        g = e.generators[0]
        xs = go(g.iter)
        if xs is UNK:
            return UNK
        out = {}
        for x in xs:
            en = dict(env)
            if isinstance(g.target, ast.Name):
                en[g.target.id] = x
            elif isinstance(g.target, ast.Tuple) and all(isinstance(t, ast.Name) for t in g.target.elts):
                for t, v in zip(g.target.elts, x):
                    en[t.id] = v
            else:
                return UNK
            k, v = go(e.key, en), go(e.value, en)
            if k is UNK or v is UNK:
                return UNK
            out[k] = v
        return out
    return UNK


def steps(it, mu, init):
    """The ways a loop changes a variable, or None if it does not start at init."""
    vals = list(it.mus.get(mu, ()))
    if init not in vals:
        return None
    return [v for v in vals if v != init and v != mu]


@rule("C40", "writing", "a number is written as its base-32 numeral")
def c40_write(ctx):
    f = ctx.P.func("convert_int_to_base32")
    ps = ctx.run(f, exc="none")
    N = sym(f.params()[0][0])

    def glob(t):
        return fold(ctx, t) if t[0] == "gvar" else UNK

    def ok(p):
        it = ps.it
        for n in (1, 31, 32, 1023, 1024):
            if not consistent(p, lambda t: n if t == N else glob(t)):
                continue
            break
        else:
            return True                         # nothing positive comes here
        if p.kind != "return":
            return "positive numbers are refused"
        v = p.value
        ls = list(loops(p.events))
        if len(ls) != 1:
            return None
        nums = [m for m in it.mus if m[0] == "mu" and m[1] == ls[0].x["id"] and N in it.mus[m]]
        start = N
        if not nums:
            # the loop may start at a number made of it
            for m in it.mus:
                if m[0] == "mu" and m[1] == ls[0].x["id"]:
                    starts = [x for x in it.mus[m] if contains(x, N) and not contains(x, m)]
                    if len(starts) == 1:
                        nums.append(m)
                        start = starts[0]
            for k in SAMPLES if start != N else ():
                y = teval(start, lambda t: k if t == N else glob(t))
                if y is UNK:
                    return None
                if y != k:
                    return f"of {k} only {y} is written"
        if len(nums) != 1:
            return None
        nu = nums[0]
        nx = steps(it, nu, start)
        if not nx or len(nx) != 1:
            return None
        # what each round adds, and where
        txt = [m for m in terms(v) if m[0] == "mu" and m in it.mus and m != nu]
        if txt:
            t = txt[0]
            st = steps(it, t, C(""))
            if st is None and any(is_c(x) for x in it.mus.get(t, ())):
                return "the text does not start empty"
            if not st or len(st) != 1:
                return None

            def S(k, x):
                return lambda y: k if y == nu else (x if y == t else glob(y))
            step = lambda k: teval(st[0], S(k, "~"))
            end = lambda k: teval(v, S(k, "~"))
        else:
            x = v
            rev = False
            if not (x[0] == "call" and x[1][0] == "attr" and x[1][2] == "join" and x[1][1] == C("") and len(x[2]) == 1):
                if x[0] == "item" and x[1][0] == "call" and x[2] == ("slice", NONE, NONE, C(-1)):
                    rev, x = True, x[1]
                if not (x[0] == "call" and x[1][0] == "attr" and x[1][2] == "join" and x[1][1] == C("") and len(x[2]) == 1):
                    return None
            a = x[2][0]
            if ext_call(a, "reversed"):
                rev, a = not rev, a[2][0]
            elif a[0] == "item" and a[2] == ("slice", NONE, NONE, C(-1)):
                rev, a = not rev, a[1]
            if a[0] != "list" or len(a[1]) != 1 or a[1][0][0] != "each":
                return None
            d = a[1][0][1]

            def step(k):
                y = teval(d, lambda z: k if z == nu else glob(z))
                return UNK if y is UNK else (y + "~" if rev else "~" + y)
            end = lambda k: "~"
        its = [(gs, k) for k, xs, gs in ls[0].x["iters"]]
        for k in SAMPLES:
            at = lambda y: k if y == nu else glob(y)
            go = [g for g, kind in its if gconsistent(g, at)]
            outg = [(g, b) for g, b, _ in p.guards if contains(g, nu)]
            stop = gconsistent(outg, at) if outg else None
            if stop is None:
                return None
            if go and not (stop and k > 0 and False):
                y, z = step(k), teval(nx[0], at)
                if y is UNK or z is UNK:
                    return None
                if not stop or k > 0:
                    if not isinstance(z, int) or z >= k and k > 0 or z < 0:
                        return f"the digits of {k} never end"
                    want = numeral(k)
                    if numeral(z) + y.replace("~", "") != want or not y.endswith("~"):
                        return f"{k} is not written as its base-32 numeral"
            if stop:
                e = end(k)
                if e is UNK:
                    return None
                if e != numeral(k) + "~" and not (k == 0 and e == "~"):
                    return f"the digits {numeral(k)} are lost at the end"
        return True
    ctx.forall("convert_int_to_base32", ps, ok, "one digit 0-9, a-v per five bits, most significant first", need=1)
    g = ctx.P.func("convert_base16_to_base32")
    pg = ctx.run(g, exc="none", opaque=("convert_int_to_base32",))
    X = sym(g.params()[0][0])

    def hexa(p):
        every = True
        some = False
        for text in ("",) + HEXES:
            at = lambda t: text if t == X else (fold(ctx, t) if t[0] == "gvar" else UNK)
            gs = [(teval(c, at), b) for c, b, _ in p.guards]
            if any(r is not UNK and bool(r) != b for r, b in gs):
                continue
            if any(r is UNK for r, b in gs):
                every = None
                continue
            some = True
            if p.kind != "return":
                return f"the text {text!r} is refused"
            v = p.value
            if fn_name(v) == "convert_int_to_base32":
                a = arg0(v)
                y = teval(a, at)
                if y is UNK:
                    if ext_call(a, "int") and a[2]:
                        x, b = teval(a[2][0], at), teval(base_of(a), at) if base_of(a) else 10
                        if x is not UNK and b is not UNK:
                            return f"the text {text!r} is refused"
                    every = None
                elif not text:
                    return f"an empty text does not give 0"
                elif y != int(text, 16):
                    return f"the text {text!r} is taken for the number {y}"
                continue
            # what is made of the numeral
            full = lambda t: numeral(at_num(t, at)) if fn_name(t) == "convert_int_to_base32" and at_num(t, at) is not UNK else at(t)
            y = teval(v, full)
            want = numeral(int(text, 16)) if text else "0"
            if y is UNK:
                every = None
            elif y != want and (text == "" or int(text, 16)):
                return f"the text {text!r} gives {y!r}, not {want!r}"
        return every
    ctx.forall("convert_base16_to_base32", pg, hexa, "the same number, read as hexadecimal", need=1)
    ctx.exists("convert_base16_to_base32: empty", pg, lambda p: True if p.kind == "return" and p.value == C("0") and len(p.guards) else False,
               "an empty text gives 0")


HEXES = ("0", "1", "f", "F", "10", "00ff", "0010", "x0"[1:] + "abc", "12345678", "9" * 40, "deadbeef" * 8, "0" * 20 + "1", "DEADBEEF", "e" * 70,
         "0b11", "00b1", "10" * 35, "f" * 13, "f0" * 40, "1a" + "0" * 62)


def at_num(t, at):
    y = teval(arg0(t), at)
    return y if isinstance(y, int) and y >= 0 else UNK


def base_of(a):
    return a[2][1] if len(a[2]) > 1 else dict(a[3]).get("base")


TEXTS = tuple(ALPH) + tuple(ALPH.upper()) + ("0v1", "00", "oO0", "lI1", " 1", "1 ", "1_0", "1-0", "1.0", "+1", "-1", "1\n", "\t1", "\ufeff1", "0x1", "0b1",
                                             "v" * 30, "#1", "'1'", "1,0", "zz", "u", "l", "", "1=", "1l")


def arg0(t):
    return t[2][0] if t[2] else t[3][0][1]


@rule("C40", "reading", "reading a base-32 text gives the number back")
def c40_read(ctx):
    f = ctx.P.func("convert_base_32_to_int")
    ps = ctx.run(f, exc="none")
    D = sym(f.params()[0][0])

    def by_int(p, arg):
        """The language reads the text; it also accepts signs, blanks, underscores and other digits."""
        every = True
        for text in ("0", "7", "v", "V", "10", "vv", "aBc9", "1_0", "+1", "-1", " 1", "1 ", "1\n", "\u0661", "0w", "1!", " "):
            at = lambda t: text if t == D else (fold(ctx, t) if t[0] == "gvar" else UNK)
            known = True
            here = True
            for c, b, _ in p.guards:
                r = teval(c, at)
                if r is UNK:
                    known = False
                elif bool(r) != b:
                    here = False
            if not here:
                continue
            a = teval(arg, at)
            if a is UNK or not known:
                every = None
                continue
            try:
                got = int(a, 32)
            except (ValueError, TypeError):
                got = None
            good = all(ch.lower() in ALPH for ch in text)
            if good and got != sum(ALPH.index(ch.lower()) * 32 ** i for i, ch in enumerate(reversed(text))):
                return f"the text {text!r} is read as {got}"
            if not good and got is not None:
                return f"the text {text!r} is read as a number"
        return every

    def ok(p):
        if p.kind != "return":
            return True
        it = ps.it
        v = p.value
        if ext_call(v, "int") and (v[2][1:] == (C(32),) or dict(v[3]).get("base") == C(32)):
            return by_int(p, v[2][0])
        if v[0] != "mu":
            return None
        st = steps(it, v, C(0))
        if st is None:
            init = [x for x in it.mus.get(v, ()) if is_c(x)]
            return "the number does not start at 0" if init else None
        if len(st) != 1:
            return None if st else "the number is never changed"
        ls = [l for l in loops(p.events) if l.x["id"] == v[1]]
        if not ls or ls[0].x["iter"] is None:
            return None
        src = ls[0].x["iter"]
        if any(k != "next" for k, _, _ in ls[0].x["iters"]):
            return "the text is not read to its end"
        if any(g for _, _, g in ls[0].x["iters"]):
            for ch in ALPH + "!~ ":
                for k, xs, gs in ls[0].x["iters"]:
                    if not any(x.kind in ("getitem", "inplace", "setitem", "call") for x in xs) and gs and gconsistent(
                            gs, lambda y: ch if y[0] == "elem" else (fold(ctx, y) if y[0] == "gvar" else UNK)):
                        return f"the character {ch!r} is skipped"
            return None
        if ext_call(src, "reversed") or (src[0] == "item" and src[2][0] == "slice"):
            return "the digits are read in the wrong order" if not (src[0] == "item" and src[2] == ("slice", NONE, NONE, NONE)) else None
        lows = [t for t in terms(src) if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("lower", "casefold", "upper")]
        base = src
        while base[0] == "call" and base[1][0] == "attr" and base[1][2] in ("lower", "casefold", "upper"):
            base = base[1][1]
        if base != D:
            for text in TEXTS:
                at = lambda t: text if t == D else (fold(ctx, t) if t[0] == "gvar" else UNK)
                if not consistent(p, at):
                    continue
                y = teval(src, at)
                if y is UNK:
                    return None
                if not isinstance(y, (str, list, tuple)) or "".join(y).lower() != text.lower():
                    return f"the text {text!r} is read as {y!r}"
        el = [t for t in terms(st[0]) if t[0] == "elem"]
        if len(set(el)) != 1:
            return "characters are not looked at" if not el else None
        el = el[0]

        def val(k, c):
            ch = c
            for t in lows[::-1]:
                ch = getattr(ch, t[1][2])()
            def at(y):
                if y == v:
                    return k
                if y == el:
                    return ch
                if y[0] == "gvar":
                    return fold(ctx, y)
                return UNK
            return teval(st[0], at)
        for k in (0, 1, 31, 33, 12345678901234567890):
            for i, c in enumerate(ALPH):
                for ch in {c, c.upper()}:
                    y = val(k, ch)
                    if y is UNK:
                        if val(k, c) is UNK and val(0, "0") is UNK:
                            return None
                        return f"the digit {ch} is not accepted"
                    if y != k * 32 + i:
                        return f"the digit {ch} after {k} gives {y}"
        for ch in "wxyzWXYZ!_ .-+\n\u00e9\u0661":
            if base == D:
                c = (ch,)
            else:
                c = teval(src, lambda t: ch if t == D else (fold(ctx, t) if t[0] == "gvar" else UNK))
            if c is not UNK and all(val(1, x) is not UNK for x in c):
                return f"the character {ch!r} is accepted"
        return True
    ctx.forall("convert_base_32_to_int", ps, ok, "value times 32 plus the digit, over all characters, either case; others refused", need=1)


NODE = {"uuid.getnode", "platform.system", "platform.release", "platform.version", "platform.machine", "platform.processor", "getpass.getuser"}


PLAIN = {"str", "format", "repr", "int", "hex", "map", "list", "tuple"}


def sources(t, out):
    """Calls to the outside and variables a term is made of."""
    un = [x for x in terms(t) if x[0] == "attr" and ext_call(x[1], "platform.uname")]
    for x in un:
        out.add("platform." + x[2])
    for x in terms(t):
        if x[0] == "call" and x[1][0] == "ext" and x[1][1] not in PLAIN:
            if x[1][1] == "platform.uname" and un:
                continue
            out.add(x[1][1])
        elif x[0] == "call" and x[1][0] in ("fn", "prop", "cls"):
            out.add(str(x[1][1]))
        elif x[0] in ("sym", "mu"):
            out.add(("?" if x[0] == "mu" else "") + str(x[1]))
        elif x[0] == "gvar":
            out.add(x[2])
        elif x[0] == "attr" and x[1][0] in ("ext", "mod"):
            out.add(f"{x[1][1]}.{x[2]}")


@rule("C41", "signatures", "random signatures are random, node signatures tell the node")
def c41(ctx):
    f = ctx.P.func("get_random_signature")
    ps = ctx.run(f, exc="none", opaque=("convert_int_to_base32", "convert_base16_to_base32"))
    mod = f.mod

    def rnd(p):
        if p.kind != "return":
            return "no signature"
        v = p.value
        n = None
        if v[0] in ("cat", "op") and has_call(v, "uuid4"):
            parts = v[1] if v[0] == "cat" else v[2:]
            if any(x[0] == "c" and x[2] for x in parts):
                return "something is added to the random digits"
        while v[0] == "item" and v[2][0] == "slice":
            lo, hi, step = v[2][1:4]
            if lo not in (NONE, C(0)) or step not in (NONE, C(1)) or not is_c(hi):
                return "other digits than the first are given" if is_c(lo) else None
            if hi[2] is not None:
                n = hi[2] if n is None else min(n, hi[2])
            v = v[1]
        s = set()
        sources(v, s)
        s -= {x for x in s if x.split(".")[-1].split(":")[-1] in ("convert_int_to_base32", "convert_base16_to_base32")}
        if "uuid.uuid4" not in s:
            return "the signature is not made from a random UUID" if not any(x in s for x in ("secrets.randbits", "secrets.token_hex", "os.urandom", "random.SystemRandom")) else None
        if s - {"uuid.uuid4"}:
            return "the signature is made from something else, too: " + ", ".join(sorted(s - {"uuid.uuid4"}))
        if fn_name(v) not in ("convert_int_to_base32", "convert_base16_to_base32"):
            if is_attr(v, "hex") or fn_name(v) in ("hex", "str") or ext_call(v, "uuid.uuid4"):
                return "the digits are not those of base 32"
            return None
        a = arg0(v)
        if fn_name(v) == "convert_int_to_base32":
            if not (is_attr(a, "int") and ext_call(a[1], "uuid.uuid4")):
                return "only some of the random bits are used" if ops_on(a) or a[0] == "attr" and ext_call(a[1], "uuid.uuid4") else None
        elif not (is_attr(a, "hex") and ext_call(a[1], "uuid.uuid4")):
            return None
        if n is None or n > 22:
            return None
        return n == 22 or f"a random signature has only {n} digits"
    ctx.forall("get_random_signature", ps, rnd, "the first 22 digits of a fresh random UUID", need=1)
    ctx.check("get_random_signature: anew", not cached(f), f.loc(), "made anew on every call")
    g = ctx.P.func("get_node_signature")
    pg = ctx.run(g, exc="none", opaque=("get_hash_signature",), volatile=())

    def node(p):
        if p.kind != "return":
            return "no signature"
        v = p.value
        if fn_name(v) != "get_hash_signature":
            return None if has_call(v, "get_hash_signature") else "the signature is no hash signature"
        s = set()
        sources(arg0(v), s)
        if NODE - s:
            if any(x.startswith("?") for x in s):
                return None
            return "the signature does not tell " + ", ".join(sorted(NODE - s))
        if s - NODE:
            return "the signature depends on " + ", ".join(sorted(s - NODE))
        for x in terms(arg0(v)):
            if x[0] == "item" and ext_call(unver(x[1]), *NODE) or x[0] == "call" and x[1][0] == "attr" and ext_call(x[1][1], *NODE) and \
                    x[1][2] in ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "split", "partition", "replace", "title", "capitalize"):
                return "only a part of a property of the node is told"
        return True
    ctx.forall("get_node_signature", pg, node, "made of the seven properties of the node and nothing else", need=1)


def ops_on(a):
    return any(t[0] in ("op", "item") for t in terms(a))


def cached(f):
    for d in f.node.decorator_list:
        n = d.func if isinstance(d, ast.Call) else d
        if (n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", "")) in ("cache", "lru_cache", "cached_property", "memoize"):
            return True
    return False


@rule("C42", "date", "the date string is the UTC date of now")
def c42(ctx):
    f = ctx.P.func("current_date_gmt_string")
    ps = ctx.run(f, exc="none")
    FMT = "%Y_%m%b_%d_utc"

    def utc(t):
        """t is the present time in UTC"""
        if ext_call(t, "datetime.datetime.now", "datetime.now"):
            a = list(t[2]) + [x for _, x in t[3]]
            if not a or a[0] == NONE:
                return False
            return True if a[0] in (("ext", "datetime.timezone.utc"), ("ext", "datetime.UTC"), ("attr", ("ext", "datetime.timezone"), "utc")) else None
        if ext_call(t, "datetime.datetime.utcnow", "time.gmtime"):
            return not t[2] or None
        if ext_call(t, "time.localtime", "datetime.datetime.today", "datetime.date.today"):
            return False
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "replace" and ext_call(t[1][1], "datetime.datetime.now", "datetime.now") and \
                {k for k, _ in t[3]} == {"tzinfo"}:
            return utc(t[1][1])
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "astimezone":
            a = list(t[2]) + [x for _, x in t[3]]
            return bool(a) and tstr(a[0]).endswith("utc")
        return None

    def ok(p):
        if p.kind != "return":
            return "no date"
        v = p.value
        made = [x for x in terms(v) if x[0] == "call" and (x[1][0] == "attr" and x[1][2] == "strftime" or ext_call(x, "time.strftime"))]
        if len(set(made)) == 1 and v != made[0]:
            for text in ("2024_12Dec_22_utc", "2025_01Jan_01_utc"):
                y = teval(v, lambda t: text if t == made[0] else UNK)
                if y is UNK:
                    return None
                if y != text and made[0][2] and made[0][2][0] == C(FMT):
                    return f"the date is written as {y!r}"
                if y != text:
                    return None
        if made:
            v = made[0]
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("strftime", "__format__"):
            t, fm = v[1][1], v[2][0] if v[2] else v[3][0][1]
        elif ext_call(v, "time.strftime"):
            fm, t = v[2][0], (v[2][1] if len(v[2]) > 1 else ("call", ("ext", "time.localtime"), (), ()))
        elif ext_call(v, "format") and len(v[2]) == 2:
            t, fm = v[2]
        else:
            return None
        tail = ""
        if fm[0] != "c":
            return None
        if fm[2] + tail != FMT:
            return "the format of the date differs: " + str(fm[2])
        u = utc(unver(t) if t[0] != "call" else t)
        if u is None:
            given = t[0] == "sym" and any(g == ("isnone", t) and not b for g, b, _ in p.guards)
            return "the date is not that of the call" if t[0] == "gvar" or t[0] == "sym" and not given else given or None
        return u or "the date is that of the local time zone"
    ctx.forall("current_date_gmt_string", ps, ok, "now, in UTC, as YYYY_MMMon_DD_utc", need=1)
    ctx.check("current_date_gmt_string: anew", not cached(f), f.loc(), "made anew on every call")
