"""Addresses: rebuilt from texts, copied, read with a type (C55), and what they tell about values (C57)."""
import ast
from .base import *
from .data import shared_entry, memoized

INITS = ("HashAddr.__init__", "SafeStrTuple.__init__")


def flag_default(f, name):
    """The constant a parameter has when it is not given (Ellipsis: there is none, None: unknown)."""
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(reversed(pos), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if x.arg == name:
            return ("c", d.value) if isinstance(d, ast.Constant) else None
    return Ellipsis


def inits(p):
    """(object, positional texts, portal) of every initialisation of an address in a path."""
    for e in events(p):
        if e.kind != "call" or not any(e.name == n or e.name.endswith("." + n) for n in INITS):
            continue
        texts = e.args.get("args")
        if texts is not None and texts[0] in ("tuple", "list"):
            texts = seq_items(texts)
        elif texts is None:
            texts = [e.args[k] for k in sorted(e.args) if k.isdigit()]
        yield e, e.recv, texts, e.args.get("portal")


@rule("C55", "rebuilt", "an address rebuilt from its texts has these texts and the given portal")
def c55_rebuilt(ctx):
    P = ctx.P
    f = P.func("HashAddr.from_strings")
    base = P.cls("HashAddr")
    subs = [c for c in P.subclasses(base) if c is not base]
    PX, HS, PT = sym("prefix"), sym("hash_signature"), sym("portal")
    for c in subs:
        g = c.methods.get("from_strings") or f
        ps = ctx.run(g, cls=c, exc="none")

        def fresh(t):
            return t is not None and has_call(t, "__new__") or (t is not None and t[0] == "new")

        def built(p, c=c):
            if p.kind != "return":
                return True
            v = p.value
            if v is None or is_c(v):
                return "no address is returned"
            mine = [x for x in inits(p) if x[1] == v]
            if not mine:
                return "the address is not initialised" if fresh(v) and not list(inits(p)) else None
            if len(mine) > 1:
                return None
            e, _, texts, portal = mine[0]
            if texts is None or any(t is None for t in texts):
                return None
            if list(texts) != [PX, HS]:
                if set(texts) == {PX, HS}:
                    return "prefix and hash are exchanged"
                if len(texts) == 2 and (not any(contains(t, PX) for t in texts) or not any(contains(t, HS) for t in texts)):
                    return "the texts are not the given ones"
                return "the given texts are altered" if any(t not in (PX, HS) and (contains(t, PX) or contains(t, HS)) for t in texts) else None
            if portal is None or is_c(portal):
                return "the given portal is ignored"
            if portal != PT:
                return None
            t = v[2] if v[0] == "call" else ()
            if v[0] == "call" and t and t[0][0] == "cls" and t[0][1] != c.name:
                return f"an address of class {t[0][1]} is made"
            return True
        ctx.forall(f"{c.name}.from_strings: texts", ps, built, "an address of this class, with these texts, in this portal", need=1)

        def atom(t, v):
            if t == PX:
                return v["p"]
            if t == HS:
                return v["h"]
            if t == sym("assert_readiness"):
                return v["must"]
            if is_attr(t, "ready") or (t[0] == "call" and fn_name(t) is not None and fn_name(t).split(".")[-1] == "ready"):
                return v["is"]
            return UNK

        def outcome(p, exp):
            if exp == "made":
                return p.kind == "return" or "is refused"
            return p.kind == "raise" or "is accepted"
        rows = [("empty prefix", dict(p="", h="h", must=False, **{"is": True}), "refused"),
                ("empty hash", dict(p="p", h="", must=False, **{"is": True}), "refused"),
                ("not ready", dict(p="p", h="h", must=True, **{"is": False}), "refused"),
                ("not ready, allowed", dict(p="p", h="h", must=False, **{"is": False}), "made"),
                ("ready", dict(p="p", h="h", must=True, **{"is": True}), "made"),
                ("ready, not asked for", dict(p="p", h="h", must=False, **{"is": True}), "made")]
        ctx.table(f"{c.name}.from_strings: accepted", ps, rows, atom, outcome, "which texts make an address")
        d = flag_default(g, "assert_readiness")
        ctx.check(f"{c.name}.from_strings: default", None if d is None else d is Ellipsis or bool(d[1]),
                  g.loc(), "readiness is required unless told otherwise")


@rule("C55", "texts", "prefix and hash signature are the texts the address was made of")
def c55_texts(ctx):
    P = ctx.P
    c = P.cls("ValueAddr")
    for name, pos in (("prefix", 0), ("hash_signature", 1)):
        f = P.func("HashAddr." + name)
        ps = ctx.run(f, cls=c, exc="none")

        def text(p, pos=pos):
            if p.kind != "return":
                return "raises"
            v = p.value
            if v[0] == "item" and (v[1] == SELF or is_attr(v[1], "str_chain", SELF)) and is_c(v[2]):
                return v[2][2] in (pos, pos - 2) or "gives another text"
            if is_c(v):
                return "gives no text of the address"
            return "the text is altered" if any(x[0] == "item" and is_attr(x[1], "str_chain", SELF) for x in terms(v) if isinstance(x, tuple) and len(x) > 2) else None
        ctx.forall(f"HashAddr.{name}", ps, text, f"text number {pos + 1}", need=1)
    f = P.func("HashAddr.__init__")
    ps = ctx.run(f, cls=c, exc="none")
    va, kw = f.node.args.vararg, f.node.args.kwarg

    def stored(p):
        if p.kind != "return":
            return "raises"
        seen = [e for e in events(p) if e.kind == "call" and e.name.endswith("SafeStrTuple.__init__")]
        if not seen:
            return "the texts are not kept" if not any(e.kind == "setattr" and e.name == "str_chain" for e in events(p)) else None
        vals = [a for k, a in seen[-1].args.items()]
        if va is None:
            return None
        return any(contains(a, sym(va.arg)) for a in vals) or "the texts are not kept"
    ctx.forall("HashAddr.__init__: texts", ps, stored, "the texts given are kept", need=1)

    def bound(p):
        if p.kind != "return":
            return "raises"
        seen = [e for e in events(p) if e.kind == "call" and e.name.endswith("PortalAwareClass.__init__")]
        if not seen:
            return None
        a = seen[-1].args.get("portal")
        return True if a == sym("portal") else "the given portal is ignored" if a is None or is_c(a) else None
    ctx.forall("HashAddr.__init__: portal", ps, bound, "the portal given is used", need=1)


@rule("C55", "copy", "a copy is the same address, whether or not its value is available")
def c55_copy(ctx):
    P = ctx.P
    f = P.func("ValueAddr.__copy__")
    ps = ctx.run(f, exc="none")

    def text_of(t, name, pos):
        return is_attr(t, name, SELF) or (t is not None and t[0] == "item" and (t[1] == SELF or is_attr(t[1], "str_chain", SELF)) and t[2] == ("c", "int", pos)) or (
            t is not None and t[0] == "call" and fn_name(t) == name and t[2][:1] == (SELF,))

    def same(p):
        if p.kind != "return":
            return "copying can fail"
        v = p.value
        if is_c(v):
            return "no address is returned"
        if v == SELF:
            return True
        if fn_name(v) != "from_strings":
            return None
        k = dict(v[3])
        if not (text_of(k.get("prefix"), "prefix", 0) and text_of(k.get("hash_signature"), "hash_signature", 1)):
            if text_of(k.get("prefix"), "hash_signature", 1) or text_of(k.get("hash_signature"), "prefix", 0):
                return "prefix and hash are exchanged"
            return None
        pt = k.get("portal")
        if pt is None or is_c(pt):
            return "the copy does not belong to the portal of the original"
        if not (is_attr(pt, "portal", SELF) or is_attr(pt, "_portal", SELF)):
            return "the copy belongs to the current portal, not to that of the original" if fn_name(pt) in (
                "get_best_portal_to_use", "get_most_recently_entered_portal") and not contains(pt, SELF) else None
        r = k.get("assert_readiness")
        d = flag_default(P.func("HashAddr.from_strings"), "assert_readiness")
        if r is None:
            return None if d is None else "copying requires the value to be available" if d is Ellipsis or d[1] else True
        return (not r[2] or "copying requires the value to be available") if is_c(r) else None
    ctx.forall("ValueAddr.__copy__", ps, same, "same texts, same portal, no look at the value", need=1)


@rule("C55", "typed", "a typed read returns the value or fails")
def c55_typed(ctx):
    f = ctx.P.func("ValueAddr.get_typed")
    ps = ctx.run(f, exc="none")
    tp = f.params()[0][1]

    def got(t):
        return t is not None and t[0] == "call" and (fn_name(t) or "").split(".")[-1] == "get"

    def typed(p):
        hit = [b for g, b, _ in p.guards if g[0] == "isinstance" and got(g[1]) and g[2] == tp]
        if p.kind == "raise":
            return not (hit and all(hit)) or "a value of the expected type is refused"
        if p.value[0] == "call" and p.value[1] in (tp, sym(tp)):
            return "a value of another type is made into one"
        if not got(p.value):
            return "something else than the value is returned" if is_c(p.value) else None
        if not hit:
            for g, b, _ in p.guards:
                if g[0] in ("eq", "is") and contains(g, sym(tp)) and any(x[0] == "typeof" and got(x[1]) for x in terms(g)):
                    return "a value of a derived class is refused"
            return "the type is not checked" if not any(g[0] == "isinstance" or has_call(g, "isinstance", "issubclass") or g[0] in ("eq", "is", "in") for g, _, _ in p.guards) else None
        return hit[-1] or "a value of another type is returned"
    ctx.forall("ValueAddr.get_typed", ps, typed, "the value, if it is of the expected type", need=1)

    def accepts(p):
        return p.kind == "return"
    ctx.exists("ValueAddr.get_typed: value", ps, accepts, "a value of the expected type is returned")

    def waits(p):
        for e in events(p):
            if e.kind == "call" and e.res is not None and got(e.res):
                t = e.args.get("timeout", e.args.get("0"))
                return t == sym("timeout") or ("the timeout is not passed on" if t is None or is_c(t) else None)
        return True if p.kind == "raise" else None
    ctx.forall("ValueAddr.get_typed: timeout", ps, waits, "the timeout is passed on", need=1)


# ---------------------------------------------------------------- C57
MUST = 22
NONE = ("c", "NoneType", None)
WHOLE = [("slice", lo, NONE, st) for lo in (NONE, C(0)) for st in (NONE, C(1))]


@rule("C57", "hash", "a signature is the beginning of the SHA-256 content hash of the whole value")
def c57_hash(ctx):
    P = ctx.P
    f = P.func("get_base16_hash_signature")
    X = sym(f.params()[0][0])
    ps = ctx.run(f, exc="none")

    def atom(t, v):
        if t[0] == "in" and t[1] == C("numpy"):
            return v
        return UNK

    def hashed(p, numpy):
        if p.kind != "return":
            return "raises"
        v = p.value
        while v[0] == "call" and v[1] == ("ext", "str") and len(v[2]) == 1:
            v = v[2][0]
        if is_c(v) or v == X:
            return "no hash is given"
        if v[0] != "call":
            return None
        n = v[1][1] if v[1][0] == "ext" else ""
        args = list(v[2]) + [a for _, a in v[3]]
        if n in ("joblib.hash", "joblib.hashing.hash"):
            return "another hash is used"          # md5 or sha1 only
        if v[1][0] == "attr" and v[1][2] == "hash":
            h = v[1][1]
            if X not in args:
                return "not the whole value is hashed" if any(contains(a, X) for a in args) else "the value is not hashed"
            if h[0] != "call" or h[1][0] != "ext":
                return None
            k = h[1][1].split(".")[-1]
            if k not in ("NumpyHasher", "Hasher"):
                return None
            if numpy and k == "Hasher":
                return "arrays are not hashed as arrays"
            if any(n == "coerce_mmap" and a != C(False) for n, a in h[3]):
                return "another hash is used for mapped arrays"
            hn = call_arg(h, "hash_name", 0)
            if hn is None:
                return "another hash is used"
            return hn == C("sha256") or ("another hash is used" if is_c(hn) else None)
        return "another hash is used" if n.startswith(("hashlib.", "zlib.", "hash")) else None
    ctx.table("base 16 hash", ps, [("numpy loaded", True, True), ("numpy not loaded", False, False)], atom, hashed, "SHA-256 of the whole value")

    g = P.func("get_base32_hash_signature")
    Y = sym(g.params()[0][0])
    ps = ctx.run(g, exc="none")

    def conv(p):
        if p.kind != "return":
            return "raises"
        v = p.value
        if fn_name(v) == "convert_base16_to_base32":
            a = [x for x in list(v[2]) + [x for _, x in v[3]]]
            if len(a) == 1 and fn_name(a[0]) == "get_base16_hash_signature":
                b = list(a[0][2]) + [x for _, x in a[0][3]]
                return b == [Y] or "not the whole value is hashed"
            return "the hash is altered before it is converted" if a and has_call(a[0], "get_base16_hash_signature") else None
        if has_call(v, "convert_base16_to_base32"):
            return "the converted hash is altered"
        return "no conversion" if is_c(v) or fn_name(v) == "get_base16_hash_signature" else None
    ctx.forall("base 32 hash", ps, conv, "the base-32 form of the hash", need=1)

    k = P.func("get_hash_signature")
    Z = sym(k.params()[0][0])
    ps = ctx.run(k, exc="none")

    def cut(p):
        if p.kind != "return":
            return "raises"
        v = p.value
        if shared_entry(p, Z) or memoized(k):
            return "not the hash of this value: values that compare equal share it"
        if v[0] == "item" and v[2][0] == "slice":
            lo, hi, st = v[2][1:4]
            b = v[1]
            if fn_name(b) not in ("get_base32_hash_signature",):
                return "the hexadecimal hash is cut" if fn_name(b) == "get_base16_hash_signature" else None
            if list(b[2]) + [x for _, x in b[3]] != [Z]:
                return "not the whole value is hashed"
            if lo not in (("c", "NoneType", None), C(0)) or st not in (("c", "NoneType", None), C(1)):
                return "not the beginning of the hash"
            if not is_c(hi):
                return None
            return hi[2] == MUST or f"{'fewer' if isinstance(hi[2], int) and 0 <= hi[2] < MUST else 'other than'} than {MUST} digits are kept" if hi[2] is not None else "the hash is not cut"
        if fn_name(v) == "get_base32_hash_signature":
            return "the hash is not cut"
        return "no hash is given" if is_c(v) else None
    ctx.forall("signature", ps, cut, f"the first {MUST} digits", need=1)


def joined(t):
    """The texts a text is joined from."""
    if t[0] == "cat":
        return [y for x in t[1] for y in joined(x)]
    if t[0] == "op" and t[1] == "+":
        return joined(t[2]) + joined(t[3])
    return [t]


@rule("C57", "address", "the address of a value tells its class, its size and its signature")
def c57_addr(ctx):
    P = ctx.P
    c = P.cls("ValueAddr")
    f = c.methods["__init__"]
    D = sym(f.params()[0][1])
    ps = ctx.run(f, exc="none")

    def parts(p):
        for e, o, texts, portal in inits(p):
            if o == SELF:
                return texts
        return None

    def own(t):
        return fn_name(t) == "get_ValueAddr" and t[1][0] == "attr" and t[1][1] == D

    def knows(p):
        return next((b for g, b, _ in p.guards if g[0] == "hasattr" and g[1] == D and g[2] == "get_ValueAddr"), None)

    def given(p):
        if p.kind != "return":
            return True
        t = parts(p)
        if t is None or len(t) != 2:
            return None
        if is_attr(t[0], "prefix") and is_attr(t[1], "hash_signature") and own(t[0][1]) and own(t[1][1]):
            return True
        if any(has_call(x, "get_hash_signature") for x in t):
            return "an object that has an address of its own gets another one"
        return None
    ctx.forall("own address", ps, given, "an object that has an address of its own keeps it", paths=[p for p in ps.paths or () if knows(p)], need=1)

    def raw(p):
        if knows(p) or p.kind != "return":
            return True
        for g, b, _ in p.guards:
            if g[0] == "isinstance" and g[1] == D and g[2].split(".")[-1] == "HashAddr":
                return not b or "the address of an address is made"
        return "the address of an address is made"
    ctx.forall("no address of an address", ps, raw, "an address that does not refer to a value is refused", need=1)

    values = [p for p in ps.paths or () if not knows(p) and p.kind == "return"]

    def prefix(p):
        t = parts(p)
        if t is None or len(t) != 2:
            return None
        v = t[0]
        low = False
        while v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("lower", "casefold") and not v[2]:
            low, v = True, v[1][1]
        if v == ("attr", ("typeof", D), "__name__"):
            return low or "the name of the class is not in lower case"
        if v[0] in ("cat", "op") and has_attr(v, "__name__"):
            return "more than the name of the class is told"
        if not contains(v, ("typeof", D)):
            return "the class of the value is not told" if not has_call(v) else None
        return "something else than the name of the class is told" if v[0] in ("item", "attr") else None
    ctx.forall("prefix", ps, prefix, "the name of the value's class in lower case", paths=values, need=1)

    def signature(p):
        t = parts(p)
        if t is None or len(t) != 2:
            return None
        v = t[1]
        xs = joined(v)
        h = [x for x in xs if fn_name(x) in ("get_hash_signature",)]
        if not h:
            return "the signature of the value is missing" if not has_call(v, "get_hash_signature") and not has_call(
                v, "get_base32_hash_signature") else "the signature is altered" if v[0] == "item" or any(
                x[0] == "item" and has_call(x[1], "get_hash_signature") for x in xs) else None
        if list(h[-1][2]) + [x for _, x in h[-1][3]] != [D]:
            return "not the whole value is hashed"
        return xs[-1] == h[-1] or "the signature is not at the end"
    ctx.forall("hash signature", ps, signature, "ends with the signature of the whole value", paths=values, need=1)

    # description of the size
    def atom(t, v):
        sh = ("attr", D, "shape")
        if t[0] == "hasattr" and t[1] == D and t[2] == "shape":
            return v["shape"] != "none"
        if t[0] == "hasattr" and t[1] == sh and t[2] == "__iter__":
            return v["shape"] == "yes"
        if t[0] == "call" and t[1] == ("ext", "callable"):
            x = t[2][0]
            return False if x == sh else v["shape"] == "yes" if x == ("attr", sh, "__iter__") else v["len"] if is_attr(x, "__len__", D) else UNK
        if t[0] == "hasattr" and t[1] == D and t[2] == "__len__":
            return v["len"]
        if v["shape"] == "yes" and (strip_wrappers(t) == sh or t[0] == "truthy" and strip_wrappers(t[1]) == sh):
            return [3, 4][:v.get("n", 2)]    # a shape that has dimensions
        if v["shape"] == "yes" and t[0] == "call" and t[1] == ("ext", "len") and t[2] and strip_wrappers(t[2][0]) == sh:
            return v.get("n", 2)
        if t[0] == "hasattr" and t[1] == D and t[2] == "get_ValueAddr":
            return False
        if t[0] == "isinstance" and t[1] == D and t[2].split(".")[-1] == "HashAddr":
            return False
        return UNK

    def size(p, exp):
        if p.kind != "return":
            return True
        t = parts(p)
        if t is None or len(t) != 2:
            return None
        v = t[1]
        all_ = [v] + [m for x in terms(v) if x in p_mus for m in p_mus[x]]
        shape = any(contains(x, ("attr", D, "shape")) for x in all_)
        length = any(x[0] == "call" and x[1] == ("ext", "len") and x[2] == (D,) for y in all_ for x in terms(y) if isinstance(x, tuple) and len(x) > 2)
        got = "shape" if shape else "length" if length else "nothing"
        if got == exp:
            sh = ("attr", D, "shape")
            for y in all_:
                for x in terms(y):
                    if x[0] == "item" and strip_wrappers(x[1]) == sh and (is_c(x[2]) or x[2][0] == "slice" and x[2] not in WHOLE):
                        return "not every dimension is told"
                    if x[0] == "call" and x[1] in (("ext", "sorted"), ("ext", "set"), ("ext", "reversed")) and x[2] and x[2][0] == sh:
                        return "the dimensions are told in another order"
            return True
        if any(x[0] in ("mu", "sym") and x != D for x in terms(v) if isinstance(x, tuple) and x) and exp == "shape" and got == "nothing":
            return None
        return f"tells its {got} instead" if got != "nothing" else f"the {exp} is not told"
    p_mus = ps.it.mus if ps.paths is not None else {}
    rows = [("array", dict(shape="yes", len=True), "shape"), ("array of one dimension", dict(shape="yes", len=True, n=1), "shape"),
            ("shape without length", dict(shape="yes", len=False), "shape"),
            ("sized", dict(shape="none", len=True), "length"), ("shape is no shape", dict(shape="other", len=True), "length"),
            ("scalar", dict(shape="none", len=False), "nothing")]
    ctx.table("size", ps, rows, atom, size, "shape, else length, else nothing")
