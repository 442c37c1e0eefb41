"""Value carrying primitives (ordinals, numbers, decimals, dates, tags, versions, texts, labels, paths): symbolic
values are encoded by the real classes, read back through text and binary forms, and compared."""
from keri import kering
from keri.kering import Versionage, Protocols
from keri.core.coring import (Seqner, Number, NumDex, Decimer, Dater, Tagger, Ilker, Traitor, Verser, Texter, Bexter,
                              Labeler, Pather, Matter, MtrDex, DecDex)

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
WORD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"
MAXON = 2 ** 128 - 1
CAP = {"M": 2, "0H": 4, "R": 5, "N": 8, "S": 11, "0A": 16, "T": 14, "U": 17}


def back(ctx, cls, m, attr, val, **kw):
    """the value survives text, text bytes, binary and raw forms"""
    for a in (cls(qb64b=m.qb64b, **kw), cls(qb64=m.qb64, **kw), cls(qb2=m.qb2, **kw)):
        ctx.check(getattr(a, attr) == val, "%s changed by encoding" % attr)
        ctx.check(a.code == m.code, "code changed by encoding")


def seq(ctx, bits):
    n = ctx.integer("n", -2, 2 ** bits)
    try:
        s = Seqner(sn=n)
    except (kering.InvalidValueError, kering.ValidationError):
        ctx.check((n < 0) | (n > MAXON), "ordinal refused")
        ctx.reach("refused")
        return
    ctx.check((n >= 0) & (n <= MAXON), "number that is no ordinal accepted")
    ctx.check(s.sn == n, "ordinal changed")
    ctx.check(s.snh == "%x" % n, "hex ordinal")
    ctx.check(Seqner(snh="%x" % n).sn == n, "ordinal from hex text")
    ctx.check(len(s.qb64) == 24, "ordinal is not of fixed size")
    back(ctx, Seqner, s, "sn", n)
    ctx.reach("ok")


def number(ctx, lo, hi):
    n = ctx.integer("n", lo, hi)
    try:
        m = Number(num=n)
    except kering.InvalidValueError:
        ctx.check((n < 0) | (n >= 256 ** 17), "number refused")
        ctx.reach("refused")
        return
    ctx.check((n >= 0) & (n < 256 ** 17), "unencodable number accepted")
    ctx.check(m.num == n and m.sn == n, "number changed")
    ctx.check(m.numh == "%x" % n and m.snh == m.numh, "hex")
    ctx.check(m.positive == (n > 0) and m.inceptive == (n == 0), "sign predicates")
    cap = CAP[m.code]
    smaller = [c for c in (2, 5, 8, 11, 14, 17) if c < cap]
    ctx.check(n < 256 ** cap, "too small a code")
    if smaller:
        ctx.check(n >= 256 ** smaller[-1], "a shorter code would do")
    back(ctx, Number, m, "num", n)
    if n <= MAXON:
        ctx.check(Number(qb64=m.huge).num == n and len(m.huge) == 24, "fixed size form")
        ctx.check(int(m.onkey, 16) == n and len(m.onkey) == 32, "key form")
        ctx.check(m.validate() is m, "ordinal rejected")
        for inc in (True, False):
            try:
                m.validate(inceptive=inc)
            except kering.ValidationError:
                ctx.check((n != 0) if inc else (n == 0), "right ordinal rejected")
                continue
            ctx.check((n == 0) if inc else (n > 0), "wrong ordinal accepted")
    else:
        for f in (lambda: m.huge, lambda: m.onkey, lambda: m.validate()):
            try:
                f()
            except Exception:
                continue
            ctx.check(False, "over-large ordinal accepted")
    ctx.reach("ok")


def coded(ctx, code):
    cap = CAP[code]
    n = ctx.integer("n", -1, 256 ** cap + 1)
    try:
        m = Number(num=n, code=code)
    except kering.InvalidValueError:
        ctx.check((n < 0) | (n >= 256 ** cap), "number that fits is refused")
        ctx.reach("refused")
        return
    ctx.check((n >= 0) & (n < 256 ** cap), "number that does not fit accepted")
    ctx.check(m.num == n and m.code == code, "number")
    back(ctx, Number, m, "num", n)
    ctx.reach("ok")


def order(ctx):
    """Fixed size ordinal keys order like the ordinals."""
    a, b = ctx.integer("a", 0, MAXON), ctx.integer("b", 0, MAXON)
    x, y = Number(num=a, code=NumDex.Huge), Number(num=b, code=NumDex.Huge)
    ctx.check((x.onkey.encode() < y.onkey.encode()) == (a < b), "key order")
    ctx.reach("ok")


def decimal_int(ctx, bits):
    n = ctx.integer("n", -2 ** bits, 2 ** bits)
    m = Decimer(decimal=n)
    ctx.check(m.decimal == n, "integer changed")
    ctx.check(m.code in DecDex, "code")
    back(ctx, Decimer, m, "decimal", n)
    ctx.check(Decimer(dns="%d" % n).qb64 == m.qb64, "text input differs")
    ctx.reach("ok")


DECS = [0.0, 0.5, -0.5, 12.25, -3.0, 1e20, 1.5e300, 1e-7, -2.5e-9, 123456789.125, 1e16, -1e22, 0.1 + 0.2, 1 / 3, 2 ** .5 * 1e9, -123456.78901234567,
        5e-324, 1.7976931348623157e308, 4503599627370497.5, -1.0000000000000002, 1e15, 123456789012345680.0]


def decimal_float(ctx):
    x = ctx.choose("x", DECS)
    m = Decimer(decimal=x)
    back(ctx, Decimer, m, "decimal", x)
    for d in (Decimer(dns=repr(x)), Decimer(dns=repr(x).encode())):
        ctx.check(d.decimal == x, "decimal text changed")
    ctx.reach("ok")


def dates(ctx, shape):
    """shape: d = any digit, s = sign, others literal"""
    out = ""
    for j, c in enumerate(shape):
        if c == "d":
            out = out + ctx.str_("c%d" % j, 1, alphabet="0123456789")
        elif c == "s":
            out = out + ctx.str_("c%d" % j, 1, alphabet="+-")
        else:
            out = out + c
    m = Dater(dts=out)
    ctx.check(m.dts == out, "date text changed")
    ctx.check(m.dtsb == out.encode(), "date bytes changed")
    ctx.check(Dater(dts=out.encode()).qb64 == m.qb64, "bytes input differs")
    back(ctx, Dater, m, "dts", out)
    ctx.reach("ok")


def tags(ctx, n):
    t = ctx.str_("t", n, maxcp=127)
    ok = True
    for c in t:
        h = False
        for x in B64:
            h = h | (c == x)
        ok = ok & h
    try:
        m = Tagger(tag=t)
    except (kering.InvalidSoftError, kering.EmptyMaterialError, kering.InvalidCodeError):
        ctx.check((not ok) | (n < 1) | (n > 11), "valid tag refused")
        ctx.reach("refused")
        return
    ctx.check(ok & (n >= 1) & (n <= 11), "invalid tag accepted")
    ctx.check(m.tag == t, "tag changed")
    back(ctx, Tagger, m, "tag", t)
    ctx.reach("ok")


def ilks(ctx):
    t = ctx.str_("t", 3, alphabet="abcdefghijklmnopqrstuvwxyz")
    known = False
    for i in kering.Ilks:
        known = known | (t == i)
    try:
        m = Ilker(ilk=t)
    except Exception:
        ctx.check(not known, "known message type refused")
        ctx.reach("refused")
        return
    ctx.check(known, "unknown message type accepted")
    ctx.check(m.ilk == t, "message type changed")
    ctx.reach("ok")


def vers(ctx):
    proto = ctx.choose("proto", sorted(Protocols))
    a, b, c, d = (ctx.integer(x, -1, 64 if x in "ac" else 4096) for x in "abcd")
    gv = Versionage(c, d) if ctx.choose("g", [0, 1]) else None
    bad = (a < 0) | (a > 63) | (b < 0) | (b > 4095)
    if gv:
        bad = bad | (c < 0) | (c > 63) | (d < 0) | (d > 4095)
    try:
        m = Verser(proto=proto, pvrsn=Versionage(a, b), gvrsn=gv)
    except ValueError:
        ctx.check(bad, "version refused")
        ctx.reach("refused")
        return
    ctx.check(not bad, "version out of range accepted")
    for x in (m, Verser(qb64=m.qb64), Verser(qb2=m.qb2)):
        v = x.versage
        ctx.check(v.proto == proto and v.pvrsn == Versionage(a, b), "version changed")
        ctx.check(v.gvrsn == gv, "genus version changed")
    ctx.check(Verser.b64ToVer(Verser.verToB64(Versionage(a, b))) == Versionage(a, b), "version text")
    ctx.reach("ok")


def texter(ctx, n):
    t = ctx.str_("t", n, maxcp=0x7ff)
    m = Texter(text=t)
    ctx.check(m.text == t, "text changed")
    back(ctx, Texter, m, "text", t)
    ctx.reach("ok")


def bext(ctx, n):
    t = ctx.str_("t", n, maxcp=127)
    ok = True
    for c in t:
        h = False
        for x in B64:
            h = h | (c == x)
        ok = ok & h
    try:
        m = Bexter(bext=t)
    except ValueError:
        ctx.check(not ok, "Base64 text refused")
        ctx.reach("refused")
        return
    ctx.check(ok, "other text accepted as Base64")
    ctx.check(m.bext == t, "text changed")
    back(ctx, Bexter, m, "bext", t)
    ctx.reach("ok")


def labels(ctx, n, free):
    t = ctx.str_("t", n, alphabet=None if free else WORD, maxcp=127)
    ok = n > 0
    for k, c in enumerate(t):
        h = False
        for x in WORD if k else WORD[:52] + "_":
            h = h | (c == x)
        ok = ok & h
    try:
        m = Labeler(label=t)
    except kering.KeriError:
        ctx.check(not ok, "label refused")
        ctx.reach("refused")
        return
    ctx.check(ok, "text that is no label accepted")
    ctx.check(m.label == t and m.text == t, "label changed")
    back(ctx, Labeler, m, "label", t)
    ctx.reach("ok")


def labeltexts(ctx, n):
    t = ctx.str_("t", n, maxcp=127)
    m = Labeler(text=t)
    ctx.check(m.text == t, "text changed")
    back(ctx, Labeler, m, "text", t)
    ctx.reach("ok")


def paths(ctx, lens, relative, pathive):
    parts = [ctx.str_("p%d" % i, n, alphabet=WORD if pathive else None, maxcp=127) for i, n in enumerate(lens)]
    if not pathive:
        for p in parts:
            ctx.assume(not ("/" in p))
    m = Pather(parts=list(parts), relative=relative, pathive=pathive)
    want = ([] if relative else [""]) + parts
    for x in (m, Pather(qb64=m.qb64), Pather(qb2=m.qb2)):
        ctx.check(len(x.parts) == len(want) and all(a == b for a, b in zip(x.parts, want)), "path parts changed")
        ctx.check(len(x.rparts) == len(parts) and all(a == b for a, b in zip(x.rparts, parts)), "relative parts changed")
        ctx.check(x.path == "/".join(want), "path text")
    if len(lens) > 1 or not relative:
        p2 = Pather(path=m.path, relative=relative, pathive=pathive)
        ctx.check(p2.qb64 == m.qb64, "path text reads as another path")
    ctx.reach("ok")


def prefixpaths(ctx, a, b):
    """startswith and strip compare whole path parts."""
    A = [ctx.str_("a%d" % i, n, alphabet="ab") for i, n in enumerate(a)]
    Bp = [ctx.str_("b%d" % i, n, alphabet="ab") for i, n in enumerate(b)]
    x, y = Pather(parts=list(A)), Pather(parts=list(Bp))
    pre = len(A) >= len(Bp) and all(p == q for p, q in zip(A, Bp))
    ctx.check(bool(x.startswith(y)) == bool(pre), "path prefix test is not by parts")
    s = x.strip(y)
    if pre:
        rest = A[len(Bp):]
        ctx.check(len(s.rparts) == len(rest) and all(p == q for p, q in zip(s.rparts, rest)), "stripped path")
        ctx.reach("prefix")
    else:
        ctx.check(s.parts == x.parts, "path stripped of a root it does not have")
        ctx.reach("not prefix")


def resolve(ctx, depth):
    """A path resolves to the value found by walking its parts."""
    ks = ["a", "b", "c"]
    leaf = {"n": 0}

    def build(d):
        if d == 0:
            leaf["n"] += 1
            return "v%d" % leaf["n"]
        return {k: build(d - 1) for k in ks} if d % 2 else [build(d - 1) for _ in range(3)]
    sad = build(depth)
    parts, val = [], sad
    ok = True
    for d in range(depth, 0, -1):
        if d % 2:
            p = ctx.str_("p%d" % d, 1, alphabet="abcd0123")
            i = None
            for k in range(3):
                if (p == ks[k]) | (p == "%d" % k):
                    i = ks[k]
        else:
            p = ctx.str_("p%d" % d, 1, alphabet="0123")
            i = None
            for k in range(3):
                if p == "%d" % k:
                    i = k
        parts.append(p)
        if i is None:
            ok = False
            break
        val = val[i]
    try:
        got = Pather(parts=parts).resolve(sad)
    except KeyError:
        ctx.check(not ok, "existing place not found")
        ctx.reach("missing")
        return
    ctx.check(ok and got == val, "path resolves to another value")
    ctx.reach("found")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect, weight=1, **params):
        out.append(dict(name=name, fn=fn, params=params, expect=expect, weight=weight))
    for b in (8, 64, 129):
        add("seq-%d" % b, seq, ["ok", "refused"], bits=b)
    for e in (2, 5, 8, 11, 14, 16, 17):
        lo = -1 if e == 2 else 256 ** e - 20
        add("number-%d" % e, number, ["ok"], lo=lo, hi=256 ** e + 20)
    add("number-all", number, ["ok", "refused"], lo=-3, hi=256 ** (6 if not T else 18))
    for c in CAP:
        add("coded-" + c, coded, ["ok", "refused"], code=c)
    add("order", order, ["ok"])
    for b in (3, 10, 13) if not T else (3, 10, 13, 16, 20):
        add("int-%d" % b, decimal_int, ["ok"], bits=b)
    add("float", decimal_float, ["ok"])
    add("date-us", dates, ["ok"], shape="dddd-dd-ddTdd:dd:dd.ddddddsdd:dd")
    for n in (0, 1, 2, 3, 4, 7, 11, 12) if not T else range(0, 14):
        add("tag-%d" % n, tags, (["ok"] if 1 <= n <= 11 else []) + ["refused"], n=n)
    add("ilk", ilks, ["ok", "refused"])
    add("vers", vers, ["ok", "refused"])
    for n in range(0, 5 if not T else 8):
        add("texter-%d" % n, texter, ["ok"], n=n, weight=n)
    for n in range(0, 10 if not T else 14):
        add("bext-%d" % n, bext, ["ok"] + (["refused"] if n else []), n=n, weight=n)
    for n in (1, 2, 3, 4, 10, 11, 12, 13, 14, 15) if not T else range(1, 20):
        add("label-%d" % n, labels, ["ok"] + (["refused"]), n=n, free=False)
        if n < 5:
            add("labelfree-%d" % n, labels, ["ok", "refused"], n=n, free=True)
    for n in range(0, 6 if not T else 8):
        add("labeltext-%d" % n, labeltexts, ["ok"], n=n)
    for lens in [(1,), (2,), (3,), (1, 1), (2, 3), (1, 2, 1), (4,), (5,)]:
        for rel in (False, True):
            add("path-%s-%d" % ("".join(map(str, lens)), rel), paths, ["ok"], lens=lens, relative=rel, pathive=True)
            if lens in [(1,), (3,), (1, 2)]:
                add("anypath-%s-%d" % ("".join(map(str, lens)), rel), paths, ["ok"], lens=lens, relative=rel, pathive=False)
    for a, b in [((1,), (1,)), ((2,), (1,)), ((1, 1), (1,)), ((2, 1), (2,)), ((1, 1), (1, 1)), ((1, 1, 1), (1, 1)), ((1,), (1, 1)),
                 ((1, 2), (1, 1)), ((1, 1, 1), (1,))]:
        add("prefix-%s-%s" % ("".join(map(str, a)), "".join(map(str, b))), prefixpaths,
            ["not prefix"] + (["prefix"] if a[:len(b)] == b else []), a=a, b=b)
    for d in (1, 2, 3):
        add("resolve-%d" % d, resolve, ["found", "missing"], depth=d)
    return out


BOUNDS = "ordinals and numbers over the whole encodable range and beyond both ends; integer decimals below 2^13 (thorough 2^20), 22 listed non-integer decimals; every microsecond-form date text; tags of 0..12 characters, Base64 texts up to 9 (13), free texts up to 4 (7) code points below 0x800, labels up to 15 (19), paths of up to 3 parts of up to 5 characters"
OUTSIDE = "arbitrary binary fractions; dates whose calendar validity matters; longer texts"
ASSUMPTIONS = []
