"""Indexed signature codec: index semantics and both-domain round trips."""
from base64 import urlsafe_b64encode, urlsafe_b64decode
from keri import kering
from keri.core import indexing
from keri.core.indexing import Indexer, Siger

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
# published indexed code table: code -> (hard, index chars, other index chars, full, kind)
T = {}
for _c in "ACE":
    T[_c] = (1, 1, 0, 88, "both")
for _c in "BDF":
    T[_c] = (1, 1, 0, 88, "crt")
T["0A"], T["0B"] = (2, 1, 1, 156, "both"), (2, 1, 1, 156, "crt")
for _c in "ACE":
    T["2" + _c] = (2, 2, 2, 92, "both")
for _c in "BDF":
    T["2" + _c] = (2, 2, 2, 92, "crt")
T["3A"], T["3B"] = (2, 3, 3, 160, "both"), (2, 3, 3, 160, "crt")
ERR = Exception


def rawsize(code):
    hs, ms, os, fs, kind = T[code]
    return (fs - hs - ms - os) * 6 // 8


def num(i, n):
    """n Base64 characters of i"""
    out = ""
    for k in range(n):
        out = B64[i & 63] + out
        i = i >> 6
    return out


def same(ctx, a, code, index, ondex, raw, what):
    ctx.check(a.code == code, what + ": code")
    ctx.check(a.index == index, what + ": index into the current key list")
    if ondex is None:
        ctx.check(a.ondex is None, what + ": other index appears where there is none")
    else:
        ctx.check(a.ondex is not None and a.ondex == ondex, what + ": index into the prior next key list")
    ctx.check(a.raw == raw, what + ": raw")


def rounds(ctx, code, given):
    hs, ms, os, fs, kind = T[code]
    raw = ctx.bytes_("raw", rawsize(code))
    index = ctx.integer("index", -1, 64 ** ms)
    bad = [index < 0, index >= 64 ** ms]
    if given:
        ondex = ctx.integer("ondex", -1, 64 ** max(os, ms))
        if kind == "crt":
            bad.append(True)
        elif os:
            bad += [ondex < 0, ondex >= 64 ** os]
        else:
            bad.append(ondex != index)
    else:
        ondex = None
    wrong = any(bad)
    try:
        m = Siger(raw=raw, code=code, index=index, ondex=ondex)
    except ERR:
        ctx.check(wrong, "valid indices refused")
        ctx.reach("refused")
        return
    ctx.check(not wrong, "invalid indices accepted")
    want = (index if ondex is None else ondex) if kind == "both" else None
    same(ctx, m, code, index, want, raw, "as made")
    head = code + num(index, ms) + num(want if want is not None else 0, os)
    ps = (3 - len(raw) % 3) % 3
    ref = head.encode() + urlsafe_b64encode(bytes([0] * ps) + raw)[ps:]
    q, b = m.qb64b, m.qb2
    ctx.check(q == ref, "text form is not the specified one")
    ctx.check(b == urlsafe_b64decode(ref), "binary form is not the text form's conversion")
    ctx.check(len(q) == fs, "size")
    same(ctx, Siger(qb64b=q), code, index, want, raw, "from text bytes")
    same(ctx, Siger(qb64=m.qb64), code, index, want, raw, "from text")
    same(ctx, Siger(qb2=b), code, index, want, raw, "from binary")
    tail = ctx.bytes_("tail", 3)
    for form in (q, b):
        buf = bytearray(form + tail)
        s = Siger(qb64b=buf, strip=True) if form is q else Siger(qb2=buf, strip=True)
        same(ctx, s, code, index, want, raw, "stripped")
        ctx.check(buf == tail, "strip removed the wrong material")
    ctx.reach("both domains")


def canonical(ctx, code, form, over, bad):
    hs, ms, os, fs, kind = T[code]
    if form == "qb64":
        if bad:
            at = ctx.choose("at", list(range(hs, hs + ms + os)) + [hs + ms + os, fs // 2, fs - 1])
            body = (ctx.str_("b1", at - hs, alphabet=B64).encode() + ctx.bytes_("x", 1) +
                    ctx.str_("b2", fs - at - 1, alphabet=B64).encode())
        else:
            body = ctx.str_("body", fs - hs, alphabet=B64).encode()
        src = code.encode() + body + b"AAAA"[:max(over, 0)]
        full = fs
    else:
        head = urlsafe_b64decode((code + "A" * (-hs % 4)).encode())
        nb, rem = hs * 6 // 8, hs * 6 % 8
        mid, nb1 = bytes([head[nb] | ctx.integer("x", 0, 2 ** (8 - rem) - 1)]), nb + 1
        full = fs * 3 // 4
        src = head[:nb] + mid + ctx.bytes_("body", full - nb1) + b"\x00" * max(over, 0)
    if over < 0:
        src = src[:over]
    try:
        m = Siger(qb64b=src) if form == "qb64" else Siger(qb2=src)
    except ERR as ex:
        ctx.reach("rejected")
        if over < 0 and not bad:
            hurt = kind == "crt" and os
            if not hurt:
                ctx.check(isinstance(ex, kering.ShortageError), "truncated material does not ask for more: " + type(ex).__name__)
        return
    ctx.check(over >= 0, "truncated material accepted")
    ctx.check(m.code == code, "decoded as another code")
    out = m.qb64b if form == "qb64" else m.qb2
    ctx.check(out == src[:full], "decodes to a value that encodes differently")
    ctx.reach("accepted")


def anycode(ctx, n, form):
    src = ctx.bytes_("src", n)
    try:
        Siger(**{form: src})
    except ERR:
        ctx.reach("rejected")
        return
    ctx.check(False, "short junk accepted")


def prefixes(ctx, code):
    hs, ms, os, fs, kind = T[code]
    raw = ctx.bytes_("raw", rawsize(code))
    m = Siger(raw=raw, code=code, index=ctx.integer("index", 0, 64 ** ms - 1))
    for form, full in (("qb64b", m.qb64b), ("qb2", m.qb2)):
        for cut in list(range(0, 10)) + [len(full) // 2, len(full) - 1]:
            try:
                Siger(**{form: full[:cut]})
            except kering.ShortageError:
                ctx.reach("asks for more")
                continue
            except Exception as ex:
                ctx.check(False, "prefix of %d of %s refused with %s" % (cut, form, type(ex).__name__))
            ctx.check(False, "prefix accepted")


def table(ctx):
    for code, (hs, ms, os, fs, kind) in T.items():
        s = Indexer.Sizes[code]
        ctx.check((s.hs, s.ss, s.os, s.fs, s.ls) == (hs, ms + os, os, fs, 0), "size entry of " + code)
        ctx.check((code in indexing.IdxCrtSigDex) == (kind == "crt"), "current-only class of " + code)
        ctx.check((code in indexing.IdxBthSigDex) == (kind == "both"), "both class of " + code)
        ctx.check(code in indexing.IdxSigDex, "not a signature code " + code)
    for code in indexing.IdxSigDex:
        ctx.check(code in T, "unknown signature code " + code)
    for c in ("0z", "1z", "4z"):
        try:
            Siger(raw=b"\0" * 60, code=c, index=0)
        except Exception:
            continue
        ctx.check(False, "non signature code accepted as signature")
    ctx.reach("table")


def cases(tier):
    out = [dict(name="table", fn=table, expect=["table"])]
    for code in T:
        for given in (False, True):
            out.append(dict(name="round-%s-%s" % (code, "given" if given else "default"), fn=rounds,
                            params=dict(code=code, given=given),
                            expect=["refused"] + (["both domains"] if not (given and T[code][4] == "crt") else [])))
        for form in ("qb64", "qb2"):
            for over in (-1, 0, 2):
                out.append(dict(name="canon-%s-%s%+d" % (code, form, over), fn=canonical,
                                params=dict(code=code, form=form, over=over, bad=False),
                                expect=["rejected"] if over < 0 else ["accepted"]))
        out.append(dict(name="canonbad-" + code, fn=canonical, params=dict(code=code, form="qb64", over=0, bad=True),
                        expect=["accepted", "rejected"]))
        out.append(dict(name="prefix-" + code, fn=prefixes, params=dict(code=code), expect=["asks for more"]))
    for form in ("qb64b", "qb2"):
        for n in range(0, 6 if tier == "quick" else 9):
            out.append(dict(name="any-%s-%d" % (form, n), fn=anycode, params=dict(form=form, n=n), expect=["rejected"]))
    return out


BOUNDS = "all 16 signature codes, full raw size, indices over their whole range plus one beyond each end; one arbitrary byte at each soft position and at three material positions; truncation and trailing material"
OUTSIDE = "reserved (TBD) indexed codes other than being refused as signatures"
ASSUMPTIONS = ["base64 of the standard library is modelled bit-exactly"]
