"""The real Mapper makes field maps out of symbolic texts, of every kind of primitive with symbolic content as text, of numbers, truth values, nothing, lists and
maps in each other, in all four serializations; what is read back is compared with what went in. Maps under a digest are then changed anywhere and read again."""
from checks.kel import *
from keri.core.mapping import Mapper
from keri.core.coring import Matter, Labeler, Diger, DigDex, MtrDex
from keri.core.counting import Counter
from keri import kering
from keri.kering import Kinds, Colds

J, M, C, N = Kinds.json, Kinds.mgpk, Kinds.cbor, Kinds.cesr
CODES = [getattr(MtrDex, n) for n in sorted(vars(type(MtrDex))) if isinstance(getattr(MtrDex, n), str) and not n.startswith("_")]
REFUSED = (ValueError, kering.KeriError)


def alike(a, b):
    """the same value of the same type, all through"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if a is None or isinstance(a, bool):
        return a is b
    return isinstance(a, str) == isinstance(b, str) and not isinstance(b, (bool, dict, list)) and b is not None and a == b


def through(ctx, mad, kind, strict=True, **kwa):
    """writes and reads in every way"""
    m = Mapper(mad=mad, kind=kind, strict=strict, **kwa)
    ctx.check(alike(mad, m.mad), "map changed by writing it")
    raw = m.raw
    ctx.check(m.size == len(raw), "size")
    forms = [dict(raw=raw), dict(raw=bytearray(raw))]
    if kind == N:
        forms += [dict(qb64=m.qb64), dict(qb64b=m.qb64b), dict(qb2=m.qb2)]
        ctx.check(m.count * 4 == len(raw) == m.byteCount() and m.byteCount(cold=Colds.bny) == len(m.qb2), "count")
        ctr = Counter(qb64b=raw)
        ctx.check(ctr.byteCount() + ctr.byteSize() == len(raw), "size stated in the group")
    else:
        ctx.check(m.count is None, "count")
    for f in forms:
        b = Mapper(kind=kind, strict=strict, **f, **kwa)
        ctx.check(alike(mad, b.mad), "map read back differs", lambda: dict(mad=str(mad), back=str(b.mad)))
        ctx.check(b.raw == raw and b.count == m.count, "bytes read back differ")
    if kind == N:
        for buf, kw in ((bytearray(raw + b"-AAA"), dict()), (bytearray(m.qb2 + b"\xf8\x00\x00"), None)):
            b = Mapper(strict=strict, strip=True, **(dict(qb64b=buf) if kw is not None else dict(qb2=buf)), **kwa)
            ctx.check(alike(mad, b.mad) and len(buf) in (3, 4), "stripped from a stream")
    return m


def text(ctx, n, abc, kind, where):
    s = ctx.str_("s", n, abc) if n else ""
    v = dict(plain=s, list=["x", s, s], map=dict(k=s, l=1), deep=[dict(k=[s])])[where]
    through(ctx, dict(a=v, z="x"), kind)
    ctx.reach("done")


def prim(ctx, codes, kind, extra):
    """texts that are primitives, and nearly so"""
    code = ctx.choose("code", codes)
    hs, ss, xs, fs, ls = Matter.Sizes[code]
    if fs is None:
        raw = bytes([ctx.integer("b", 0, 255)]) + bytes(2 * 3 - 1 - ls) if ls is not None else b""
        m = Matter(raw=raw, code=code)
    elif ss:
        m = Matter(raw=bytes(Matter._rawSize(code)), soft=ctx.str_("s", ss - xs, "aB_"), code=code)
    else:
        size = Matter._rawSize(code)
        m = Matter(raw=(ctx.bytes_("b", 1) + bytes(size - 1)) if size else b"", code=code)
    t = m.qb64
    t = dict(no=t, more=t + "A", less=t[:-1], twice=t + t, four=t + "AAAA")[extra]
    through(ctx, dict(a=t, b=[t, "x"], z=True), kind)
    ctx.reach("done")


def pick(ctx, n, deep):
    k = ctx.choose("k%d" % n, ["null", "yes", "no", "int", "float", "text", "label", "list", "map"] if deep else ["null", "yes", "int", "text"])
    if k == "null":
        return None
    if k in ("yes", "no"):
        return k == "yes"
    if k == "int":
        return ctx.integer("i%d" % n, -10, 10) if n < 2 else 2 ** 40 + n
    if k == "float":
        return ctx.choose("f%d" % n, [0.5, -12.25, 1e-7, 1e300])
    if k == "text":
        return ctx.str_("t%d" % n, 2, "aA1 -") if n < 2 else "Ab"
    if k == "label":
        return "field_%d" % n
    v = [pick(ctx, n + 1, False)] + [pick(ctx, n + 2, False) for _ in range(ctx.boolean("m%d" % n).__bool__())] if ctx.boolean("e%d" % n) else []
    return v if k == "list" else {"abcdefghijklmnop"[:4 * i + 1]: x for i, x in enumerate(v)}


def values(ctx, kind):
    mad = dict(a=pick(ctx, 0, True), d=pick(ctx, 10, False))
    through(ctx, mad, kind)
    ctx.reach("done")


LABEL = "aZ9_-. \"é"


def labels(ctx, n, strict, kind, inner):
    """names of fields"""
    l = ctx.str_("l", n, LABEL) if n else ""
    good = n > 0 and all((c in "aZ9_") for c in l) and not l[0] in "9"
    mad = {"a1": {l: 1}, "z": l} if inner else {l: 1, "z": l}
    try:
        through(ctx, mad, kind, strict=strict)
    except REFUSED:
        ctx.check(strict and kind == N and not good, "field name refused")
        ctx.reach("refused")
        return
    ctx.check(not (strict and kind == N) or good, "field name that is none accepted")
    ctx.reach("done")


def bodies(ctx, n, free=True):
    """one thing of each kind with a free byte, in a map"""
    return dict(a=ctx.str_("x%d" % n, 1, "ab\"") if free else "é", b=[1, dict(c=ctx.integer("y%d" % n, 0, 3) if free else 2)], e=None)


def said(ctx, kind, label, code, before, strict, change, free):
    saids = {label: code}
    mad = {"$v": "1"} if not strict else {}
    body = bodies(ctx, 0, free)
    start = dict(empty="", dummy="#" * Matter.Sizes[code].fs, junk="nothing", other=Diger(ser=b"other", code=DigDex.SHA3_256).qb64)[before]
    want = DigDex.SHA3_256 if before == "other" else code
    given = {**mad, label: start, **body} if change != "last" else {**mad, **body, label: start}
    kept = dict(given)
    kw = dict(kind=kind, strict=strict, saids=saids, saidive=True)
    m = Mapper(mad=given, makify=True, **kw)
    ctx.check(alike(given, kept) and saids == {label: code}, "what the caller gave is changed")
    ctx.check(m.said == m.mad[label] and Diger(qb64=m.said).code == want and m.saids == {label: want}, "digest of the map")
    ctx.check(alike({k: v for k, v in m.mad.items() if k != label}, {k: v for k, v in given.items() if k != label}) and list(m.mad) == list(given), "map changed by its digest")
    dummied = {k: ("#" * Matter.Sizes[want].fs if k == label else v) for k, v in m.mad.items()}
    if kind != N:
        ctx.check(Diger(qb64=m.said).verify(Mapper(mad=dummied, kind=kind, strict=strict).raw), "digest is not over the map with blanks in its place")
    for f in (dict(raw=m.raw), dict(mad=m.mad)) + ((dict(qb2=m.qb2),) if kind == N else ()):
        b = Mapper(**f, **kw)
        ctx.check(alike(b.mad, m.mad) and b.said == m.said and b.raw == m.raw, "verified map differs")
    again = Mapper(mad=m.mad, makify=True, **kw)
    ctx.check(again.said == m.said and again.raw == m.raw, "digest made again differs")
    # another map
    twist = ctx.choose("twist", ["body", "inner"] if free else ["added", "gone", "name", "order", "digest", "type", "inner"])
    other = dict(m.mad)
    if twist == "body":
        nb = bodies(ctx, 1)
        ctx.assume((nb["a"] != body["a"]) | (nb["b"][1]["c"] != body["b"][1]["c"]))
        other.update(nb)
    elif twist == "added":
        other[ctx.choose("n", ["f", "dd"])] = None
    elif twist == "gone":
        other.pop(ctx.choose("g", ["a", "b", "e"]))
    elif twist == "name":
        other = {("aa" if k == "a" else k): v for k, v in other.items()}
    elif twist == "order":
        other["a"] = other.pop("a")
    elif twist == "digest":
        i = ctx.choose("at", [1, 2, 20, 43])
        c = "B" if m.said[i] == "A" else "A"
        other[label] = m.said[:i] + c + m.said[i + 1:]
    elif twist == "type":
        other["e"] = ctx.choose("e", [False, "", 0, [], {}])
    else:
        other["b"] = [1, dict(other["b"][1], q=1)]
    raw = Mapper(mad=other, kind=kind, strict=strict).raw
    for f in (dict(raw=raw), dict(mad=other)):
        try:
            Mapper(**f, **kw)
        except REFUSED:
            continue
        ctx.check(False, "map with a digest that is not its own accepted")
    free = Mapper(raw=raw, verify=False, **kw)
    ctx.check(alike(free.mad, other), "unverified reading")
    ctx.reach("refused")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect, weight=1, **params):
        out.append(dict(name=name, fn=fn, params=params, expect=expect, weight=weight))
    for kind in (N, J, M, C):
        for n in range(0, 5 if T else 4):
            for where in ("plain", "list", "map", "deep"):
                if kind != N and where != "deep" or where != "plain" and n not in (1, 2):
                    continue
                add("text-%s-%d-%s" % (kind, n, where), text, ["done"], n=n, abc="AV1 é" if n > 2 and not T else "A0V1-aX é\"", kind=kind, where=where, weight=n * 2)
        add("value-%s" % kind, values, ["done"], kind=kind, weight=20)
    for ex in ("no", "more", "less", "twice", "four"):
        for i in range(0, len(CODES), 12):
            if not T and ex in ("more", "twice") and i % 24:
                continue
            add("prim-%s-%d" % (ex, i), prim, ["done"], codes=CODES[i:i + 12], kind=N, extra=ex, weight=8)
    for kind in (N, J):
        for strict in (True, False):
            for inner in (False, True):
                for n in range(0, 4 if T else 3):
                    if kind == J and n != 2:
                        continue
                    ex = ["done"]
                    if kind == N and strict:
                        ex = ["refused"] + (["done"] if n else [])
                    add("label-%s-%s-%s-%d" % (kind, "strict" if strict else "free", "inner" if inner else "outer", n), labels, ex, n=n, strict=strict, kind=kind, inner=inner, weight=4)
    for kind in (N, J, M, C):
        for label, code, strict in (("d", DigDex.Blake3_256, True), ("$id", DigDex.SHA2_256, False)) + ((("d", DigDex.Blake2b_256, True),) if T else ()):
            for before in ("empty", "dummy", "junk", "other") if T else ("empty", "other") if strict else ("dummy", "junk"):
                for change in ("first", "last"):
                    for free in (False, True):
                        if free and not T and ((change == "last") == (kind in (N, C)) or before == "other" and kind != C or before == "junk"):
                            continue
                        add("said-%s-%s-%s-%s-%s-%s" % (kind, label, code, before, change, "free" if free else "fixed"), said, ["refused"], kind=kind, label=label, code=code, before=before, strict=strict, change=change, free=free, weight=9)
    return out


BOUNDS = ("texts of up to 3 (4) characters out of those that matter to the encoding, in a map, list and nested; the text of a primitive of every code with a free byte, whole, cut "
          "and lengthened; any value out of nothing, yes, no, integers from -10 to 10 and two large, four fractions, texts, and lists and maps of up to two of these; field names of up to 2 (3) "
          "characters strict and free; digests under two names and three algorithms, over a map of free content, with eight ways of changing it")
OUTSIDE = "maps of more than one counter's short form; other numbers (C07); digests inside inner maps (C37); malformed encodings of single primitives (C01, C06)"
ASSUMPTIONS = ["digests never collide"]
