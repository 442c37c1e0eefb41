"""Count codes: framing sizes, round trips, version codes."""
from base64 import urlsafe_b64encode, urlsafe_b64decode
from keri import kering
from keri.kering import Vrsn_1_0, Vrsn_2_0
from keri.core.counting import Counter

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
V = {1: Vrsn_1_0, 2: Vrsn_2_0}
SMALL = {1: "ABCDEFGHILTUVWZ", 2: "ABCDEFGHIJKLMNOPQRSTUVWXYZabc"}
BIG = {1: "LTUVWZ", 2: "ABCDEFGHIJKLMNOPQRSTUVWXYZabc"}
QT1 = "DLTUVWZ"        # version 1 codes that count quadlets/triplets


def num(i, n):
    out = ""
    for k in range(n):
        out = B64[i & 63] + out
        i = i >> 6
    return out


def rounds(ctx, v, code, lo, hi):
    count = ctx.integer("count", lo, hi)
    big = code.startswith("--")
    try:
        m = Counter(code=code, count=count, version=V[v])
    except Exception:
        if big:
            ctx.check(count < 0 or count >= 64 ** 5, "valid count refused")
        elif code[1:] in BIG[v]:
            ctx.check(count < 0 or count >= 64 ** 5, "valid count refused")
        else:
            ctx.check(count < 0 or count >= 64 ** 2, "valid count refused")
        ctx.reach("refused")
        return
    ctx.check(count >= 0, "negative count")
    small = not big and count < 64 ** 2
    want = code if small or big else "-" + code
    ctx.check(m.code == want, "code does not fit the count")
    ss = 2 if small else 5
    ctx.check(m.count == count, "count")
    ref = (want + num(count, ss)).encode()
    ctx.check(m.qb64b == ref, "text form is not the specified one")
    ctx.check(m.qb64.encode() == ref, "str form")
    ctx.check(m.qb2 == urlsafe_b64decode(ref), "binary form")
    ctx.check(m.fullSize == len(ref), "full size")
    ctx.check(m.byteCount() == count * 4 and m.byteCount("bny") == count * 3, "framed byte count")
    ctx.check(m.byteSize() == len(ref) and m.byteSize("bny") * 4 == len(ref) * 3, "own byte size")
    tail = ctx.bytes_("tail", 3)
    for kw in (dict(qb64b=bytearray(ref + tail), strip=True), dict(qb64=m.qb64), dict(qb2=bytearray(m.qb2 + tail), strip=True)):
        a = Counter(version=V[v], **kw)
        ctx.check(a.code == want and a.count == count, "decoded differently")
        ctx.check(a.name == m.name, "name differs")
        if "strip" in kw:
            buf = kw.get("qb64b", kw.get("qb2"))
            ctx.check(buf == tail, "strip removed the wrong material")
    ctx.reach("both domains")


def canonical(ctx, v, code, form):
    ss = 2 if len(code) == 2 else 5 if code.startswith("--") else 3
    if form == "qb64":
        src = code.encode() + ctx.bytes_("soft", ss)
        kw = dict(qb64b=src)
    else:
        hs = len(code)
        head = urlsafe_b64decode((code + "A" * (-hs % 4)).encode())
        nb, rem = hs * 6 // 8, hs * 6 % 8
        src = head[:nb] + bytes([head[nb] | ctx.integer("x", 0, 2 ** (8 - rem) - 1)]) + ctx.bytes_("soft", (hs + ss) * 3 // 4 - nb - 1)
        kw = dict(qb2=src)
    try:
        m = Counter(version=V[v], **kw)
    except Exception:
        ctx.reach("rejected")
        return
    ctx.check(m.code == code, "other code")
    ctx.check((m.qb64b if form == "qb64" else m.qb2) == src, "decodes to a value that encodes differently")
    ctx.reach("accepted")


def anycode(ctx, v, n, form):
    src = ctx.bytes_("src", n)
    try:
        m = Counter(version=V[v], **{form: src})
    except Exception:
        ctx.reach("rejected")
        return
    out = m.qb64b if form == "qb64b" else m.qb2
    ctx.check(out == src[:len(out)], "accepted, encodes differently")
    ctx.check(m.code in ["-" + c for c in SMALL[v]] + ["--" + c for c in BIG[v]] + ["-_AAA"], "code from another table accepted")
    ctx.reach("accepted")


def prefixes(ctx, v, code):
    m = Counter(code=code, count=ctx.integer("count", 0, 64 ** 2 - 1), version=V[v])
    for form, full in (("qb64b", m.qb64b), ("qb2", m.qb2)):
        for cut in range(len(full)):
            try:
                Counter(version=V[v], **{form: full[:cut]})
            except kering.ShortageError:
                ctx.reach("asks for more")
                continue
            except Exception as ex:
                ctx.check(False, "prefix of %d of %s refused with %s" % (cut, form, type(ex).__name__))
            ctx.check(False, "prefix accepted")


def enclosing(ctx, v, code, form, n):
    """An enclosed group says exactly how long it is."""
    body = ctx.bytes_("body", n)
    unit = 4 if form == "qb64" else 3
    try:
        out = Counter.enclose(**{form: body}, code=code, version=V[v])
    except ValueError:
        ctx.check(n % unit != 0 or (v == 1 and code.strip("-") not in QT1), "aligned group refused")
        ctx.reach("refused")
        return
    ctx.check(n % unit == 0, "misaligned group accepted")
    buf = bytearray(out)
    c = Counter(version=V[v], strip=True, **{"qb64b" if form == "qb64" else "qb2": buf})
    cold = "txt" if form == "qb64" else "bny"
    ctx.check(c.byteCount(cold) == n and buf == body, "group length differs from its count")
    ctx.check(c.code.strip("-") == code.strip("-"), "other group")
    ctx.reach("enclosed")


def versions(ctx):
    major = ctx.integer("major", -1, 64)
    minor = ctx.integer("minor", -1, 4096)
    try:
        t = Counter.verToB64(major=major, minor=minor)
    except ValueError:
        ctx.check(major < 0 or major > 63 or minor < 0 or minor > 4095, "valid version refused")
        ctx.reach("refused")
        return
    ctx.check(len(t) == 3 and t == num(major, 1) + num(minor, 2), "version text")
    w = Counter.b64ToVer(t)
    ctx.check(w.major == major and w.minor == minor, "version round trip")
    m = Counter(code="-_AAA", countB64=t, version=Vrsn_2_0)
    ctx.check(m.qb64 == "-_AAA" + t, "genus version code")
    ctx.check(Counter.b64ToVer(m.countToB64(l=3)) == w, "version from count code")
    if ctx.boolean("text"):
        ctx.assume(major < 12)
        ctx.assume(minor < 12)
        ctx.check(Counter.verToB64(text="%d.%d" % (major, minor)) == t, "version from text")
        ctx.check(Counter.b64ToVer(t, texted=True) == "%d.%d" % (major, minor), "text from version")
    ctx.reach("version")


def table(ctx):
    for v in (1, 2):
        S = Counter.Sizes[v][0]
        want = {"-" + c: (2, 2, 4) for c in SMALL[v]}
        want.update({"--" + c: (3, 5, 8) for c in BIG[v]})
        want["-_AAA"] = (5, 3, 8)
        ctx.check({k: tuple(x) for k, x in S.items()} == want, "count code table version %d" % v)
        names = Counter.Names[v][0]
        ctx.check(set(names) == set(want), "names")
    ctx.reach("table")


def cases(tier):
    out = [dict(name="table", fn=table, expect=["table"]), dict(name="versions", fn=versions, expect=["version", "refused"])]
    for v in (1, 2):
        for c in SMALL[v]:
            p = dict(v=v, code="-" + c)
            out.append(dict(name="round-%d-%s-small" % (v, c), fn=rounds, params=dict(p, lo=-1, hi=64 ** 2 - 1), expect=["both domains", "refused"]))
            out.append(dict(name="round-%d-%s-large" % (v, c), fn=rounds, params=dict(p, lo=64 ** 2, hi=64 ** 5),
                            expect=["refused"] + (["both domains"] if c in BIG[v] else [])))
            out.append(dict(name="prefix-%d-%s" % (v, c), fn=prefixes, params=p, expect=["asks for more"]))
            for f in ("qb64", "qb2"):
                out.append(dict(name="canon-%d-%s-%s" % (v, c, f), fn=canonical, params=dict(p, form=f), expect=["accepted"]))
        for c in BIG[v]:
            p = dict(v=v, code="--" + c)
            out.append(dict(name="round-%d-big%s" % (v, c), fn=rounds, params=dict(p, lo=-1, hi=64 ** 5), expect=["both domains", "refused"]))
            out.append(dict(name="prefix-%d-big%s" % (v, c), fn=prefixes, params=p, expect=["asks for more"]))
            for f in ("qb64", "qb2"):
                out.append(dict(name="canon-%d-big%s-%s" % (v, c, f), fn=canonical, params=dict(p, form=f), expect=["accepted"]))
        for f in ("qb64", "qb2"):
            out.append(dict(name="canon-%d-genus-%s" % (v, f), fn=canonical, params=dict(v=v, code="-_AAA", form=f), expect=["accepted"]))
        for f in ("qb64b", "qb2"):
            for n in range(0, 6 if tier == "quick" else 9):
                out.append(dict(name="any-%d-%s-%d" % (v, f, n), fn=anycode, params=dict(v=v, n=n, form=f), expect=["rejected"], weight=9))
        for c in SMALL[v]:
            for f in ("qb64", "qb2"):
                for n in (0, 1, 3, 4, 6, 8, 12):
                    out.append(dict(name="enclose-%d-%s-%s-%d" % (v, c, f, n), fn=enclosing, params=dict(v=v, code="-" + c, form=f, n=n)))
    return out


BOUNDS = "every count code of both code tables; counts over the whole range plus one beyond each end; every soft part byte arbitrary; arbitrary material of up to 5 (quick) / 8 (thorough) characters; enclosed groups up to 12 bytes"
OUTSIDE = "enclosed groups longer than 12 bytes"
ASSUMPTIONS = ["base64 of the standard library is modelled bit-exactly"]
