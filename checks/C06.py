"""Base64 number and sextet conversions, version strings, cold start classification: real helpers on symbolic
integers, characters and bytes, against positional arithmetic written here."""
from keri import kering
from keri.kering import (Versionage, Protocols, Kinds, versify, deversify, smell, sniff, Colds, Smellage)
from keri.help import helping
from keri.help.helping import intToB64, intToB64b, b64ToInt, codeB64ToB2, codeB2ToB64, nabSextets

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def ints(ctx, bits, l):
    i = ctx.integer("i", 0, 2 ** bits - 1)
    t = intToB64(i, l=l)
    n = len(t)
    ctx.check(n >= l, "shorter than asked for")
    ctx.check(b64ToInt(t) == i, "number changed by the conversion")
    ctx.check(b64ToInt(t.encode()) == i, "number changed by the conversion from bytes")
    ctx.check(intToB64b(i, l=l) == t.encode(), "bytes conversion differs")
    if n > l and n > 1:
        ctx.check(i >= 64 ** (n - 1), "longer than needed")
    ctx.check(i < 64 ** n, "does not fit")
    ctx.reach("ok")


def texts(ctx, n):
    s = ctx.str_("s", n, maxcp=255)
    ok = True
    v = 0
    for c in s:
        here = False
        d = 0
        for k in range(64):
            e = c == B64[k]
            here = here | e
            d = d + k * e
        ok = ok & here
        v = v * 64 + d
    try:
        got = b64ToInt(s)
    except Exception:
        ctx.check(not ok, "Base64 text refused")
        ctx.reach("refused")
        return
    ctx.check(ok, "text outside the alphabet converted")
    ctx.check(got == v, "value is not the positional value")
    ctx.check(intToB64(got, l=n) == s, "text does not come back")
    ctx.reach("ok")


def sextets(ctx, l, extra):
    s = ctx.str_("s", l, alphabet=B64)
    tail = ctx.bytes_("tail", extra)
    b = codeB64ToB2(s)
    ctx.check(len(b) == (l * 3 + 3) // 4, "length of binary code")
    ctx.check(codeB64ToB2(s.encode()) == b, "bytes and text inputs differ")
    ctx.check(codeB2ToB64(b, l) == s, "code changed by binary conversion")
    ctx.check(codeB2ToB64(b + tail, l) == s, "following bytes matter")
    ctx.check(nabSextets(b + tail, l) == b, "sextets taken differ from the code")
    for k in range(1, l + 1):
        ctx.check(codeB2ToB64(b, k) == s[:k], "shorter code is not a prefix")
        ctx.check(nabSextets(b, k) == codeB64ToB2(s[:k]), "shorter sextets are not a prefix")
    for f in (codeB2ToB64, nabSextets):
        try:
            f(b[:-1], l)
        except ValueError:
            continue
        ctx.check(False, "sextets made from too few bytes")
    ctx.reach("ok")


def rawsextets(ctx, n):
    b = ctx.bytes_("b", n)
    for l in range(1, 4 * n // 3 + 1):
        m = (l * 3 + 3) // 4
        got = nabSextets(b, l)
        ctx.check(len(got) == m, "length")
        keep = l * 6 - 8 * (m - 1)
        if m > 1:
            ctx.check(got[:m - 1] == b[:m - 1], "leading bytes changed")
        ctx.check(got[m - 1] == (b[m - 1] >> (8 - keep)) << (8 - keep), "last byte is not the leading bits")
        ctx.check(codeB64ToB2(codeB2ToB64(b, l)) == got, "two ways to take sextets differ")
    ctx.reach("ok")


def vs(ctx, major):
    proto = ctx.choose("proto", sorted(Protocols))
    kind = ctx.choose("kind", sorted(Kinds))
    minor = ctx.integer("minor", 0, 15 if major < 2 else 4095)
    size = ctx.integer("size", 0, (16 ** 6 if major < 2 else 64 ** 4) - 1)
    pv = Versionage(major, minor)
    gv = None
    if major == 2 and ctx.choose("g", [0, 1]):
        gv = Versionage(2, ctx.integer("gminor", 0, 4095))
    try:
        s = versify(proto=proto, pvrsn=pv, kind=kind, size=size, gvrsn=gv)
    except kering.KindError:
        ctx.check(major < 2 and kind == Kinds.cesr, "valid version refused")
        ctx.reach("kind")
        return
    ctx.check(not (major < 2 and kind == Kinds.cesr), "native kind for a version without it")
    ctx.check(len(s) == (17 if major < 2 else 19), "length")
    want = (gv or pv) if major == 2 else None
    for got in (deversify(s), deversify(s.encode())):
        ctx.check(got.proto == proto and got.kind == kind, "protocol or kind changed")
        ctx.check(got.pvrsn == pv, "version changed")
        ctx.check(got.size == size, "size changed")
        if want is None:
            ctx.check(got.gvrsn is None, "genus version appears")
        else:
            ctx.check(got.gvrsn == want, "genus version changed")
    ctx.reach("ok")


def oversize(ctx, major):
    lim = 16 ** 6 if major < 2 else 64 ** 4
    size = ctx.integer("size", lim, lim * 4)
    try:
        s = versify(pvrsn=Versionage(major, 0), size=size)
        got = deversify(s)
    except kering.KeriError:
        ctx.reach("refused")
        return
    ctx.check(got.size == size, "oversize message gets the wrong size")


def smelling(ctx, k, major):
    pre = ctx.bytes_("pre", k)
    size = ctx.integer("size", 0, 16 ** 4)
    minor = ctx.integer("minor", 0, 15)
    s = versify(pvrsn=Versionage(major, minor), kind=Kinds.mgpk, size=size).encode()
    raw = pre + s + b"}" * 12
    try:
        got = smell(raw)
    except kering.VersionError:
        ctx.check(k > 8, "version string near the front not found")
        ctx.reach("too far")
        return
    ctx.check(k <= 8, "version string found beyond the allowed offset")
    ctx.check(got.size == size and got.pvrsn.major == major and got.pvrsn.minor == minor and got.kind == Kinds.mgpk, "smelled fields")
    ctx.reach("found")


def shortsmell(ctx, n):
    raw = ctx.bytes_("raw", n)
    try:
        smell(raw)
    except kering.ShortageError:
        ctx.reach("short")
        return
    except kering.VersionError:
        ctx.check(n >= 27, "short stream called malformed")
        ctx.reach("bad")
        return
    ctx.check(n >= 27, "version found in too few bytes")


def anyvs(ctx, n, head):
    """Any text that reads as a version string is the one written for what it says."""
    s = head + ctx.bytes_("s", n - len(head))
    try:
        g = deversify(s)
    except (kering.KeriError, ValueError):
        ctx.reach("refused")
        return
    t = versify(proto=g.proto, pvrsn=g.pvrsn, kind=g.kind, size=g.size, gvrsn=g.gvrsn)
    ctx.check(t.encode() == s[:len(t)], "version string has a second spelling")
    ctx.reach("ok")


def sniffing(ctx):
    b = ctx.bytes_("b", 2)
    t = b[0] >> 5
    try:
        c = sniff(b)
    except kering.ColdStartError:
        ctx.check(False, "first byte refused")
        return
    want = {0: Colds.ano, 1: Colds.txt, 2: Colds.txt, 3: Colds.msg, 4: Colds.msg, 5: Colds.msg, 6: Colds.msg, 7: Colds.bny}
    for k in range(8):
        ctx.check(not (t == k) or c == want[k], "stream start classified wrongly")
    ctx.reach(c)


def cases(tier):
    T = tier == "thorough"
    out = []
    for bits, l in [(6, 1), (12, 2), (24, 1), (24, 4), (30, 4), (6, 5), (36, 1)] + ([(64, 1), (66, 11)] if T else []):
        out.append(dict(name="int-%d-%d" % (bits, l), fn=ints, params=dict(bits=bits, l=l), expect=["ok"]))
    for n in range(1, 5 if not T else 9):
        out.append(dict(name="text-%d" % n, fn=texts, params=dict(n=n), expect=["ok", "refused"]))
    for l in range(1, 9 if not T else 13):
        out.append(dict(name="sextet-%d" % l, fn=sextets, params=dict(l=l, extra=2), expect=["ok"]))
    for n in range(1, 7 if not T else 10):
        out.append(dict(name="nab-%d" % n, fn=rawsextets, params=dict(n=n), expect=["ok"]))
    for m in (1, 2):
        out.append(dict(name="vs-%d" % m, fn=vs, params=dict(major=m), expect=["ok"] + (["kind"] if m == 1 else []), weight=9))
        out.append(dict(name="oversize-%d" % m, fn=oversize, params=dict(major=m), expect=["refused"]))
        for k in range(0, 12) if T else list(range(0, 7)) + [9] * (m == 1):
            out.append(dict(name="smell-%d-%d" % (m, k), fn=smelling, params=dict(k=k, major=m), weight=8,
                            expect=["found" if k <= 8 else "too far"]))
        n = 17 if m == 1 else 19
        for h in (b"KERI1", b"ACDC1", b"KERI") if m == 1 else (b"KERIC", b"ACDCC", b"KERI"):
            out.append(dict(name="any-%d-%s" % (m, h.decode()), fn=anyvs, params=dict(n=n, head=h), expect=["ok", "refused"], weight=8))
    for n in (0, 1, 17, 19, 26):
        out.append(dict(name="short-%d" % n, fn=shortsmell, params=dict(n=n), expect=["short"]))
    out.append(dict(name="sniff", fn=sniffing, expect=["txt", "bny", "msg", "ano"]))
    return out


BOUNDS = "numbers below 2^36 (thorough 2^66), Base64 texts up to 4 (8) characters drawn from code points 0..255, codes up to 8 (12) sextets with 2 following bytes, every protocol, kind, version and size a version string can carry, offsets 0..6 and 9 (thorough 0..11) of arbitrary bytes before it, any 17 or 19 bytes as a version string"
OUTSIDE = "negative numbers; longer texts; regular expression search over wholly symbolic 27-byte buffers"
ASSUMPTIONS = []
