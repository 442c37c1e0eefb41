"""The real Structor, Sealer, Blinder and Mediar on structures of every type with symbolic content. Oracle: the fields given, the concatenation of their primitives, each group
framed by its count code; the digest of a blinded state worked out by itself; and which of the candidate states was blinded."""
from checks.kel import *
from keri import kering
from keri.kering import Colds
from keri.core import structing as st
from keri.core.structing import Structor, Sealer, Blinder, Mediar, Castage
from keri.core.coring import Diger, DigDex, Number, Prefixer, Verser, Noncer, Labeler, Texter, Dater, NonceDex
from keri.core.counting import Counter
from collections import namedtuple

REFUSED = (ValueError, kering.KeriError)
A, B = nosaid(3), nosaid(4)
SALT = "0AAwc2FsdG5vbmNlYmxpbmRl"
DTS = ["2021-01-01T00:00:00.000000+00:00", "2024-12-31T23:59:59.999999-05:30"]


def number(ctx, name):
    return "%x" % ctx.choose(name, [0, 1, 65535, 65536, 2 ** 40 - 1, 2 ** 40, 2 ** 128 - 1])


def field(ctx, clan, l, free):
    """a value of the field as a structure takes it"""
    if clan in (st.BlindState, st.BoundState, st.TypeMedia):
        if l == "d":
            return ctx.choose(l, ["", A, B])
        if l in ("u", "td", "bd"):
            return ctx.choose(l, ["", A, SALT])
        if l in ("ts", "mt"):
            return ctx.str_(l, 2, "a_-.") if free else ctx.choose(l, ["", "issued", "a/b", "-x", "0123456789abcdef", "long text of words"])
        if l == "mv":
            return ctx.str_(l, 3, "a{\n") if free else ctx.choose(l, ["", "{}", "é", "abcd"])
    if l in ("s", "f", "bn"):
        return number(ctx, l)
    if l == "dt":
        return ctx.choose(l, DTS)
    if l == "t":
        return Verser(proto=ctx.choose(l, ["KERI", "ACDC"])).qb64
    return ctx.choose(l, [A, B])


CLANS = {c.__name__: c for c in st.AClanDom}
OWN = {Sealer: st.SClanDom, Blinder: st.BSClanDom, Mediar: st.TMClanDom}


def kinds_of(clan):
    return [Structor] + [k for k, d in OWN.items() if clan in d]


def made(cls, clan, crew, how="crew"):
    kw = {} if cls in (Structor, Sealer) else dict(verify=False)
    if how == "dict":
        # fields alone tell the type
        return cls(crew=crew._asdict(), **kw)
    if how == "list":
        return cls(clan=clan, crew=list(crew), **kw)
    if how == "tuple":
        return cls(clan=clan, crew=tuple(crew), **kw)
    if how == "other":
        return cls(clan=clan, crew=namedtuple("Other", clan._fields)(*crew), **kw)
    if how == "cast":
        return cls(cast=getattr(st.ACastDom, clan.__name__), crew=list(crew), **kw)
    return cls(crew=crew, **kw)


MAKE = ["crew", "dict", "list", "tuple", "other", "cast"]
READ = ["qb64", "qb64b", "qb2", "strip2", "data"]


def structure(ctx, name, free):
    clan = CLANS[name]
    fields = [l for l in clan._fields if not free or l in ("ts", "mt", "mv")]
    vary = ctx.choose("vary", fields)
    others = ctx.choose("others", [0, 1])
    crew = clan(*(field(ctx, clan, l, free) if l == vary else small(l, clan, others) for l in clan._fields))
    cls = ctx.choose("cls", kinds_of(clan))
    how, src = ctx.choose("way", [(h, "strip") for h in MAKE] + [("crew", r) for r in READ] if not free else [("crew", "strip"), ("dict", "qb2"), ("list", "strip2")])
    cast = getattr(st.ACastDom, name)
    s = made(cls, clan, crew, how)
    prims = [c.kls(**{c.ipn or "qb64": v}) for c, v in zip(cast, crew)]
    text, raw = "".join(p.qb64 for p in prims), b"".join(p.qb2 for p in prims)
    ctx.check(s.clan is clan and s.name == name and s.crew == crew and s.asdict == crew._asdict(), "fields given", lambda: str(s.crew))
    ctx.check(s.qb64 == text and s.qb64b == text.encode() and s.qb2 == raw, "concatenation of the primitives")
    kw = {} if cls in (Structor, Sealer) else dict(verify=False)
    tail = ctx.choose("tail", [b"", b"more"]) if not free else b"more"
    if src == "qb64":
        r = cls(clan=clan, qb64=text + tail.decode(), **kw)
    elif src == "qb64b":
        r = cls(clan=clan, qb64b=text.encode() + tail, **kw)
    elif src == "qb2":
        r = cls(clan=clan, qb2=raw + tail, **kw)
    elif src == "data":
        r = cls(data=s.data, **kw)
    else:
        ims = bytearray((text.encode() if src == "strip" else raw) + tail)
        r = cls(clan=clan, strip=True, **{"qb64b" if src == "strip" else "qb2": ims}, **kw)
        ctx.check(ims == tail, "what is left of the stream")
    ctx.check(r.crew == crew and r.clan is clan and r.qb64 == text and r.qb2 == raw, "read back")
    ctx.reach("done")


def group(ctx, name, n):
    """structures in a counted group, in either domain, whole or cut"""
    clan = CLANS[name]
    cls = ctx.choose("cls", kinds_of(clan))
    pool = [clan(*(small(l, clan, k) for l in clan._fields)) for k in range(2)]
    crews = [pool[ctx.choose("c%d" % i, [0, 1])] for i in range(n)]
    if cls in (Blinder, Mediar):
        # read back under their digests
        crews = [cls(crew=c, makify=True).crew for c in crews]
    ss = [made(cls, clan, c) for c in crews]
    text = ctx.boolean("text")
    cold = Colds.txt if text else Colds.bny
    g = cls.enclose(ss, cold=cold)
    body_ = b"".join(s.qb64b if text else s.qb2 for s in ss)
    if n:
        ctr = Counter(code=getattr(Codens_(), cls.ClanCodens[name]), count=len(body_) // (4 if text else 3))
        ctx.check(bytes(g) == (ctr.qb64b if text else ctr.qb2) + body_, "group")
    kw = "qb64b" if text else "qb2"
    tail = ctx.choose("tail", [b"", b"-AAB" if text else b"\xf8\x00\x01"])
    if not n:
        ctx.check(cls.extract(**{kw: bytes(g) + tail}) == [], "empty group")
        ctx.reach("done")
        return
    cut = ctx.integer("cut", 0, len(g)) if n < 2 else len(g) - ctx.choose("short", [0, 1, 2, 3, 4, 15, 16, 44, len(body_) // 2, len(body_)])
    ctx.assume(0 <= cut)
    src = bytearray(g[:cut] + (tail if cut == len(g) else b""))
    kept = bytes(src)
    strip = ctx.boolean("strip")
    try:
        out = cls.extract(strip=strip, **{kw: src})
    except REFUSED:
        ctx.check(cut < len(g), "group refused")
        ctx.check(bytes(src) == kept, "stream changed by a group refused")
        ctx.reach("short")
        return
    ctx.check(cut == len(g), "group cut short is taken", lambda: (int(cut), len(g)))
    ctx.check([o.crew for o in out] == crews and all(type(o) is cls and o.clan is clan for o in out), "structures of the group")
    ctx.check(bytes(src) == (tail if strip else kept), "what is left of the stream")
    ctx.reach("done")


def small(l, clan, k):
    if clan in (st.BlindState, st.BoundState, st.TypeMedia):
        if l == "d":
            return ""
        if l in ("u", "td", "bd"):
            return ["", A][k]
        if l in ("ts", "mt", "mv"):
            return ["", "word"][k]
    if l in ("s", "f", "bn"):
        return ["1", "ffffff"][k]
    if l == "dt":
        return DTS[k]
    if l == "t":
        return Verser(proto=["KERI", "ACDC"][k]).qb64
    return [A, B][k]


def Codens_():
    from keri.core.counting import CtrDex_2_0
    return CtrDex_2_0


def mixed(ctx):
    """structures of two types are no group; a group of another family is not taken"""
    a = Sealer(crew=st.SealDigest(A))
    b = Sealer(crew=ctx.choose("b", [st.SealRoot(A), st.SealLast(A), st.SealSource("1", A)]))
    try:
        Sealer.enclose([a, b] if ctx.boolean("first") else [b, a])
    except REFUSED:
        ctx.reach("refused")
    else:
        ctx.check(False, "group of two types")
    try:
        out = ctx.choose("cls", [Blinder, Mediar]).extract(qb64b=bytes(Sealer.enclose([b])))
    except REFUSED + (KeyError,):
        return
    ctx.check(False, "group of another family taken", lambda: str(out))


def digest(crew, code):
    """of the fields with the place of the digest marked"""
    cast = getattr(st.ACastDom, type(crew).__name__)
    prims = {l: c.kls(**{c.ipn or "qb64": v}).qb64 for l, c, v in zip(crew._fields, cast, crew) if l != "d"}
    return Diger(ser=("#" * 44 + "".join(prims.values())).encode(), code=code).qb64


def sealed(ctx, name, free):
    """digest of a blinded state, and of a typed medium"""
    clan = CLANS[name]
    cls = Mediar if name == "TypeMedia" else Blinder
    code = ctx.choose("code", [None, DigDex.Blake3_256, DigDex.SHA3_256])
    kw = {l: small(l, clan, 1) for l in clan._fields}
    which = "mv" if name == "TypeMedia" else "ts"
    kw[which] = ctx.str_(which, 1, "ab") if free else "word"
    kw["d"] = "" if code is None else Diger(ser=b"dummy", code=code).qb64
    crew = clan(**kw)
    s = cls(crew=crew, makify=True)
    want = digest(crew, code or DigDex.Blake3_256)
    ctx.check(s.said == want and s.crew == crew._replace(d=want) and s.saidb == want.encode(), "digest", lambda: s.said)
    r = cls(clan=clan, qb64=s.qb64)
    ctx.check(r.crew == s.crew and r.said == want, "read back")
    if cls is Blinder:
        ctx.check((s.blid, s.uuid, s.acdc, s.state) == (want, kw["u"], kw["td"], kw["ts"]), "parts of the state")
        bound = clan is st.BoundState
        ctx.check((s.bsn, s.bnh, s.bd) == ((int(kw["bn"], 16), kw["bn"], kw["bd"]) if bound else (None, None, None)), "event bound")
        ctx.check((s.blidb, s.uuidb, s.acdcb, s.stateb, s.bnhb, s.bdb) == tuple(None if v is None else v.encode() for v in (want, s.uuid, s.acdc, s.state, s.bnh, s.bd)), "bytes of the parts")
    else:
        ctx.check((s.said, s.uuid, s.mt, s.mv) == (want, kw["u"], kw["mt"], kw["mv"]), "parts of the medium")
        ctx.check((s.saidb, s.uuidb, s.mtb, s.mvb) == tuple(v.encode() for v in (want, s.uuid, s.mt, s.mv)), "bytes of the parts")
    l = ctx.choose("l", clan._fields if not free else ["d", which])
    new = {"d": Diger(ser=b"o", code=code or DigDex.Blake3_256).qb64, "bn": "2"}.get(l, B if l in ("u", "td", "bd") else "c")
    if l == "d" and ctx.boolean("blank"):
        new = ""
    bad = s.crew._replace(**{l: new})
    src = ctx.choose("src", ["crew", "qb64", "qb2", "data"] if not free else ["crew", "qb64"])
    q = cls(crew=bad, verify=False)
    try:
        if src == "crew":
            cls(crew=bad)
        elif src == "data":
            cls(data=q.data)
        else:
            cls(clan=clan, **{src: getattr(q, src)})
    except REFUSED:
        ctx.reach("refused")
        return
    ctx.check(False, "changed field under the same digest", lambda: (l, src))


RAW = b"0123456789abcdef"
STATES = ["issued", "revoked", "x"]


def blind(ctx, bound, source):
    """unblinding gives what was blinded when it is among the candidates, and nothing otherwise"""
    sn = ctx.choose("sn", [0, 300] if bound else [0, 1, 300])
    kw = dict(salt=SALT) if source == "salt" else dict(raw=RAW)
    acdc, state = ctx.choose("acdc", ["", A, B]), ctx.choose("state", ["", "issued", "revoked"] if bound else ["", "issued", "revoked", "x"])
    bsn, bd = ctx.choose("bond", [(0, ""), (1, A), (2, A), (1, B)]) if bound else (0, "")
    b = Blinder.blind(sn=sn, acdc=acdc, state=state, bound=bound, bsn=bsn, bd=bd, **kw)
    uuid = Blinder.makeUUID(sn=sn, **kw)
    ctx.check((b.uuid, b.acdc, b.state, b.bsn, b.bd) == (uuid, acdc, state) + ((bsn, bd) if bound else (None, None)), "blinded state")
    ctx.check(b.said == digest(b.crew, DigDex.Blake3_256), "digest")
    cand = ctx.choose("cand", [A, ""])
    states = ctx.choose("states", [None, ["issued"], ["revoked", "issued"]])
    bounds = ctx.choose("bounds", [None, [(1, A)], [(1, A), (2, A)]]) if bound else None
    usn = ctx.choose("usn", [None, sn, sn + 1])
    given = dict(uuid=uuid) if usn is None else dict(sn=usn, **kw)
    kept = (states and list(states), bounds and list(bounds))
    length = (len(states) if states is not None else None, len(bounds) if bounds is not None else None)
    states, bounds = states if states is None else list(states), bounds if bounds is None else list(bounds)
    u = Blinder.unblind(b.said, acdc=cand, states=states, bound=bound, bounds=bounds, **given)
    ctx.check(length == (len(states) if states is not None else None, len(bounds) if bounds is not None else None), "lists of the caller changed")
    ok = acdc in (cand, "") and state in (kept[0] or []) + [""] and (not bound or (bsn, bd) in (kept[1] or []) + [(0, "")]) and ("uuid" in given or usn == sn)
    if ok:
        ctx.check(u is not None and u.crew == b.crew and u.said == b.said, "state not unblinded", lambda: (acdc, state, bsn, bd))
        ctx.reach("done")
    else:
        ctx.check(u is None, "something else unblinded", lambda: str(u and u.crew))
        ctx.reach("none")


def uuids(ctx):
    """a blinding factor for each number, salt"""
    a, b = (ctx.choose(n, [(s, k) for s in (SALT, "0ABtb3JlLXNhbHQtaXMtaGVy") for k in (0, 1, 2, 16, 256)]) for n in "ab")
    u, v = (Blinder.makeUUID(salt=s, sn=k) for s, k in (a, b))
    ctx.check((u == v) == (a == b), "one factor for two updates")
    ctx.check(Noncer(nonce=u).code == NonceDex.Salt_256, "kind of factor")
    ctx.reach("done")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(cname, fn, expect, weight=1, **params):
        out.append(dict(name=cname, fn=fn, params=params, expect=expect, weight=weight))
    for name in CLANS:
        add("structure-" + name, structure, ["done"], name=name, free=False, weight=8)
        if name in ("BlindState", "BoundState", "TypeMedia"):
            add("structure-%s-free" % name, structure, ["done"], name=name, free=True, weight=9)
            add("sealed-" + name, sealed, ["refused"], name=name, free=False, weight=3)
            add("sealed-%s-free" % name, sealed, ["refused"], name=name, free=True, weight=9)
        for n in range(3 if not T else 4):
            add("group-%s-%d" % (name, n), group, ["done"] + (["short"] if n else []), name=name, n=n, weight=1 + n)
    add("mixed", mixed, ["refused"])
    for bound in (False, True):
        for source in ("salt", "raw"):
            add("blind-%s-%s" % ("bound" if bound else "plain", source), blind, ["done", "none"], bound=bound, source=source, weight=9)
    add("uuids", uuids, ["done"], weight=2)
    return out


BOUNDS = ("eleven types of structure (seven seals, two blinded states, typed medium, first seen couple), each field of two to seven values (numbers at each change of size, texts of "
          "every length class or of 2-3 free characters, blank or not), made in six ways and read in six; groups of up to 2 (3) in text and binary, cut anywhere; three seconds of "
          "blinded states with every choice of candidates")
OUTSIDE = "structures of the caller's own types; eighteen-byte numbers; security tiers of the salt other than low"
ASSUMPTIONS = ["digests and stretching of salts never collide"]
