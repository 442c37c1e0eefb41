"""Primitive codec: text and binary domain round trips, canonical decoding."""
from base64 import urlsafe_b64encode, urlsafe_b64decode
from keri import kering
from keri.core import coring
from keri.core.coring import Matter

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

# published CESR master code table: code -> (hard, soft, extra, full, lead)
ROWS = [
    ("A B C D E F G H I J O Q a", (1, 0, 0, 44, 0)), ("K L", (1, 0, 0, 76, 0)), ("M W", (1, 0, 0, 4, 0)),
    ("N", (1, 0, 0, 12, 0)), ("P", (1, 0, 0, 124, 0)), ("R", (1, 0, 0, 8, 0)), ("S", (1, 0, 0, 16, 0)),
    ("T", (1, 0, 0, 20, 0)), ("U", (1, 0, 0, 24, 0)), ("V", (1, 0, 0, 4, 1)), ("X", (1, 3, 0, 4, 0)),
    ("Y", (1, 7, 0, 8, 0)), ("Z", (1, 11, 0, 12, 0)), ("b", (1, 3, 0, 8, 0)),
    ("0A", (2, 0, 0, 24, 0)), ("0B 0C 0D 0E 0F 0G 0I", (2, 0, 0, 88, 0)), ("0H", (2, 0, 0, 8, 0)),
    ("0J", (2, 2, 1, 4, 0)), ("0K", (2, 2, 0, 4, 0)), ("0L", (2, 6, 1, 8, 0)), ("0M", (2, 6, 0, 8, 0)),
    ("0N", (2, 10, 1, 12, 0)), ("0O", (2, 10, 0, 12, 0)),
    ("1AAA 1AAB 1AAI 1AAJ", (4, 0, 0, 48, 0)), ("1AAC 1AAD", (4, 0, 0, 80, 0)), ("1AAE", (4, 0, 0, 156, 0)),
    ("1AAF", (4, 4, 0, 8, 0)), ("1AAG", (4, 0, 0, 36, 0)), ("1AAH", (4, 0, 0, 100, 0)),
    ("1AAK 1AAL 1AAM 1AAO 1AAP", (4, 0, 0, 4, 0)), ("1AAN", (4, 8, 0, 12, 0)),
    ("1__-", (4, 2, 0, 12, 0)), ("1___", (4, 0, 0, 8, 0)), ("2__-", (4, 2, 1, 12, 1)), ("2___", (4, 0, 0, 8, 1)),
    ("3__-", (4, 2, 0, 12, 2)), ("3___", (4, 0, 0, 8, 2)),
]
FIXED = {}
for _cs, _sz in ROWS:
    for _c in _cs.split():
        FIXED[_c] = _sz
VAR = "ABCDEFH"     # families 4x/5x/6x and 7AAx/8AAx/9AAx
ERR = Exception     # any refusal; acceptance is what is judged


def rawsize(sz):
    hs, ss, xs, fs, ls = sz
    return (fs - hs - ss) * 6 // 8 - ls


def reference(code, xs, soft, ls, raw):
    """Text domain form by the specification."""
    head = code + "_" * xs + soft
    ps = (3 - (len(raw) + ls) % 3) % 3
    return head.encode() + urlsafe_b64encode(bytes([0] * (ps + ls)) + raw)[ps:]


def same(ctx, m, code, soft, raw, what):
    ctx.check(m.code == code, what + ": code differs")
    ctx.check(m.soft == soft, what + ": soft part differs")
    ctx.check(m.raw == raw, what + ": raw value differs")


def domains(ctx, m, code, soft, raw, ref):
    q = m.qb64b
    ctx.check(q == ref, "text form is not the specified one")
    ctx.check(m.qb64.encode() == ref, "str and bytes text forms differ")
    b = m.qb2
    ctx.check(len(q) % 4 == 0 and len(b) % 3 == 0, "not aligned")
    ctx.check(len(q) == m.fullSize and len(b) * 4 == len(q) * 3, "full size wrong")
    ctx.check(b == urlsafe_b64decode(ref), "binary form is not the text form's conversion")
    ctx.check(m.composable, "primitive reported as not composable")
    same(ctx, Matter(qb64b=q), code, soft, raw, "from text bytes")
    same(ctx, Matter(qb64=m.qb64), code, soft, raw, "from text")
    same(ctx, Matter(qb2=b), code, soft, raw, "from binary")
    ctx.reach("both domains")


def fixed_round(ctx, code):
    hs, ss, xs, fs, ls = FIXED[code]
    raw = ctx.bytes_("raw", rawsize(FIXED[code]))
    soft = ctx.str_("soft", ss - xs, alphabet=B64) if ss - xs else ""
    m = Matter(raw=raw, code=code, soft=soft)
    same(ctx, m, code, soft, raw, "as made")
    domains(ctx, m, code, soft, raw, reference(code, xs, soft, ls, raw))


def var_round(ctx, fam, n, start):
    """Any start code of the family yields the code that fits the size."""
    raw = ctx.bytes_("raw", n)
    code0 = start + (fam if start in "456" else "AA" + fam)
    m = Matter(raw=raw, code=code0)
    ls = (3 - n % 3) % 3
    size = (n + ls) // 3
    if start in "456" and size < 64 ** 2:
        code, soft = "456"[ls] + fam, B64[size // 64] + B64[size % 64]
    else:
        code, soft = "789"[ls] + "AA" + fam, "AA" + B64[size // 64] + B64[size % 64]
    same(ctx, m, code, soft, raw, "as made")
    domains(ctx, m, code, soft, raw, reference(code, 0, soft, ls, raw))


def longer(ctx, code):
    """Raw material longer than the code's size: only the code's size is taken;
    shorter: refused."""
    n = rawsize(FIXED[code])
    k = ctx.choose("k", [-1, 1, 5] if n else [1])
    hs, ss, xs, fs, ls = FIXED[code]
    raw = ctx.bytes_("raw", n + k)
    try:
        m = Matter(raw=raw, code=code, soft="A" * (ss - xs))
    except ERR:
        ctx.reach("refused")
        ctx.check(k < 0, "long raw refused")
        return
    ctx.check(k > 0 and m.raw == raw[:n], "wrong slice of raw taken")
    ctx.reach("sliced")


def canonical(ctx, code, form, over, bad):
    """Whatever is accepted as an encoding of `code` re-encodes to the very same
    characters, and anything after the primitive is left alone."""
    hs, ss, xs, fs, ls = FIXED[code]
    if form == "qb64":
        if bad:
            body = ctx.bytes_("body", fs - hs)
        else:
            body = ctx.str_("body", fs - hs, alphabet=B64).encode()
        src = code.encode() + body + b"AAAA"[:max(over, 0)]
        full = fs
    else:
        head = urlsafe_b64decode((code + "A" * (-hs % 4)).encode())
        nb = hs * 6 // 8
        rem = hs * 6 % 8
        if rem:
            x = ctx.integer("x", 0, 2 ** (8 - rem) - 1)
            mid = bytes([head[nb] | x])
            nb1 = nb + 1
        else:
            mid, nb1 = b"", nb
        full = fs * 3 // 4
        src = head[:nb] + mid + ctx.bytes_("body", full - nb1) + b"\x00" * over
    if over < 0:
        src = src[:over]
    try:
        m = Matter(qb64b=src) if form == "qb64" else Matter(qb2=src)
    except ERR:
        ctx.reach("rejected")
        return
    ctx.check(over >= 0, "truncated material accepted")
    ctx.check(m.code == code, "decoded as another code")
    ctx.check(len(m.raw) == rawsize(FIXED[code]) and len(m.soft) == ss - xs, "decoded sizes wrong")
    out = m.qb64b if form == "qb64" else m.qb2
    ctx.check(out == src[:full], "decodes to a value that encodes differently")
    ctx.reach("accepted")


def anycode(ctx, n, form):
    """Arbitrary leading characters: decode or a clean refusal, and re-encode."""
    if form == "qb64":
        src = ctx.bytes_("src", n)
        kw = dict(qb64b=src)
    else:
        src = ctx.bytes_("src", n)
        kw = dict(qb2=src)
    try:
        m = Matter(**kw)
    except ERR:
        ctx.reach("rejected")
        return
    out = m.qb64b if form == "qb64" else m.qb2
    ctx.check(len(out) <= n and out == src[:len(out)], "accepted, encodes differently")
    ctx.reach("accepted")


def prefixes(ctx, code):
    """Every proper prefix of an encoding asks for more material."""
    hs, ss, xs, fs, ls = FIXED[code] if code in FIXED else (4, 4, 0, None, 0) if code[0] in "789" else (2, 2, 0, None, 0)
    if fs is None:
        raw = ctx.bytes_("raw", 4)
        m = Matter(raw=raw, code=code)
    else:
        raw = ctx.bytes_("raw", rawsize(FIXED[code]))
        m = Matter(raw=raw, code=code, soft=ctx.str_("soft", ss - xs, alphabet=B64) if ss - xs else "")
    for form, full in (("qb64b", m.qb64b), ("qb2", m.qb2)):
        cuts = sorted(set(list(range(0, 13)) + [len(full) // 2, len(full) - 2, len(full) - 1]))
        for cut in cuts:
            if not 0 <= cut < len(full):
                continue
            try:
                Matter(**{form: full[:cut]})
            except kering.ShortageError:
                ctx.reach("asks for more")
                continue
            except Exception as ex:
                ctx.check(False, "prefix of %d of %s refused with %s instead of asking for more" % (cut, form, type(ex).__name__))
            ctx.check(False, "prefix accepted")


def stripping(ctx, code):
    hs, ss, xs, fs, ls = FIXED[code]
    raw = ctx.bytes_("raw", rawsize(FIXED[code]))
    soft = ctx.str_("soft", ss - xs, alphabet=B64) if ss - xs else ""
    tail = ctx.bytes_("tail", ctx.choose("n", [0, 1, 4]))
    m = Matter(raw=raw, code=code, soft=soft)
    buf = bytearray(m.qb64b + tail)
    a = Matter(qb64b=buf, strip=True)
    same(ctx, a, code, soft, raw, "stripped text")
    ctx.check(buf == tail, "strip removed the wrong characters")
    buf = bytearray(m.qb2 + tail)
    a = Matter(qb2=buf, strip=True)
    same(ctx, a, code, soft, raw, "stripped binary")
    ctx.check(buf == tail, "strip removed the wrong bytes")
    ctx.reach("stripped")


def table(ctx):
    for code, sz in FIXED.items():
        ctx.check(tuple(Matter.Sizes[code]) == sz, "size table entry for %s changed" % code)
    ctx.check(set(Matter.Codes.values()) <= set(Matter.Sizes), "code without sizes")
    vals = list(Matter.Codes.values())
    ctx.check(len(vals) == len(set(vals)), "two names share a code")
    for c, s in Matter.Sizes.items():
        ctx.check(len(c) == s.hs == Matter.Hards[c[0]], "hard size of %s" % c)
        ctx.check((s.hs + s.ss) % 4 != 3, "code size")
        if s.fs is None:
            ctx.check(c in ["456"[s.ls] + f for f in VAR] + ["789"[s.ls] + "AA" + f for f in VAR], "variable code " + c)
            ctx.check(s.hs == s.ss and s.xs == 0, "variable sizes " + c)
        else:
            ctx.check(c in FIXED, "unknown fixed code %s" % c)
    ctx.reach("table")


def cases(tier):
    T = tier == "thorough"
    out = [dict(name="table", fn=table, expect=["table"])]
    for code in FIXED:
        p = dict(code=code)
        out.append(dict(name="round-" + code, fn=fixed_round, params=p, expect=["both domains"]))
        out.append(dict(name="len-" + code, fn=longer, params=p, expect=["sliced"]))
        out.append(dict(name="strip-" + code, fn=stripping, params=p, expect=["stripped"]))
        out.append(dict(name="prefix-" + code, fn=prefixes, params=p, expect=["asks for more"]))
        n = rawsize(FIXED[code])
        for form in ("qb64", "qb2"):
            for over in (-1, 0, 3):
                out.append(dict(name="canon-%s-%s%+d" % (code, form, over), fn=canonical,
                                params=dict(code=code, form=form, over=over, bad=False),
                                expect=["rejected"] if over < 0 else ["accepted"]))
        hs, ss, xs, fs, ls = FIXED[code]
        if n <= (64 if T else 12) and fs > hs and ss - xs <= 4:
            out.append(dict(name="canonbad-%s" % code, fn=canonical, budget=120 if T else 30,
                            params=dict(code=code, form="qb64", over=0, bad=True), expect=["accepted", "rejected"]))
    for fam in VAR:
        for st in "456789":
            lst = [0, 1, 2, 3, 4, 5, 6]
            if fam == "B":
                lst += [63 * 3, 64 * 3 - 1, 64 * 3, 64 * 3 + 1]
                if T:
                    lst += [700]
            for n in lst:
                out.append(dict(name="var-%s%s-%d" % (st, fam, n), fn=var_round,
                                params=dict(fam=fam, n=n, start=st), expect=["both domains"]))
    for c in ("4A", "5B", "6C", "7AAD", "8AAE", "9AAF"):
        out.append(dict(name="prefix-" + c, fn=prefixes, params=dict(code=c), expect=["asks for more"]))
    for form in ("qb64", "qb2"):
        for n in range(0, 10 if T else 7):
            out.append(dict(name="any-%s-%d" % (form, n), fn=anycode, params=dict(n=n, form=form), weight=5 + n,
                            expect=["rejected"]))
    return out


BOUNDS = ("every fixed-size code with its full raw size and soft part symbolic; variable-size codes of every family with raw "
          "of 0..6 bytes and sizes around 64 quadlets; arbitrary leading text/binary of up to 6 (quick) / 9 (thorough) "
          "characters; truncation by 1 and trailing material of 3 characters")
OUTSIDE = "variable-size material beyond the sizes listed (up to 64**4 quadlets); memoryview inputs"
ASSUMPTIONS = ["base64 of the standard library is modelled bit-exactly, including its discarding of foreign characters"]
