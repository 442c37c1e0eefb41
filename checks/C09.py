"""Messages made by the library from symbolic content are read back from their bytes, in every serialization."""
from checks.kel import *
from keri.core import serdering
from keri.core.serdering import SerderKERI, SerderACDC
from keri.core.coring import DigDex, Tholder, Verser
from keri.core.structing import (SealDigest, SealRoot, SealEvent, SealSource, SealLast, SealBack, SealKind)
from keri.kering import Kinds, deversify, Versionage

VERSER = Verser(proto="KERI", pvrsn=Vrsn_2_0, gvrsn=Vrsn_2_0).qb64
DT = "2021-01-01T00:00:00.%06d+00:00"
J, M, C, N = Kinds.json, Kinds.mgpk, Kinds.cbor, Kinds.cesr
SHAPES = [(J, Vrsn_1_0), (M, Vrsn_1_0), (C, Vrsn_1_0), (J, Vrsn_2_0), (M, Vrsn_2_0), (C, Vrsn_2_0), (N, Vrsn_2_0)]


def around(ctx, s, kind, v, klas=SerderKERI):
    """s read back from its bytes is s"""
    raw = s.raw
    tail = ctx.bytes_("tail", 1)
    t = klas(raw=raw + tail)
    ctx.check(t.raw == raw, "bytes differ after reading back")
    ctx.check(list(t.sad) == list(s.sad), "fields differ after reading back")
    for k in s.sad:
        ctx.check(t.sad[k] == s.sad[k], "field differs after reading back", lambda: repr((k, s.sad[k], t.sad[k]))[:300])
    ctx.check(t.said == s.said and t.size == len(raw) and s.size == len(raw), "said or size")
    ctx.check(t.kind == kind and t.pvrsn == v and t.ilk == s.ilk and t.proto == s.proto, "version string content")
    p = deversify(s.sad["v"])
    ctx.check(p[0] == s.proto and p[1] == v and p[2] == kind and p[3] == len(raw), "version string does not state the message")
    u = klas(sad=t.sad)
    ctx.check(u.raw == raw and u.said == s.said, "made again from its fields")
    ctx.reach("read")
    return t


def inc(ctx, kind, v, nk, nw, code, weighted):
    ks = [Verfer(raw=ctx.bytes_("k%d" % i, 2) + bytes([i] * 30), code=MtrDex.Ed25519).qb64 for i in range(nk)]
    ws = [wit(i) for i in range(nw)]
    th = ctx.integer("th", 1, nk) if not weighted else ctx.choose("w", [["1/2"] * nk, [["1"] + ["1/3"] * (nk - 1)], ["1", "0"][:nk]])
    toad = ctx.integer("toad", 1, nw) if nw else 0
    nd = [Diger(raw=ctx.bytes_("n", 2) + bytes(30), code=MtrDex.Blake3_256).qb64]
    s = incept(keys=ks, isith="%x" % th if not weighted else th, ndigs=nd, wits=ws, toad=toad, code=code, kind=kind, version=v,
               cnfg=ctx.choose("cnfg", [[], ["EO"], ["EO", "DND"]]))
    t = around(ctx, s, kind, v)
    ctx.check(t.keys == ks and t.ndigs == nd and list(t.backs) == ws and t.bn == toad and t.sn == 0, "inception content")
    ctx.check(t.tholder.sith == ("%x" % th if not weighted else t.tholder.sith), "signing threshold")
    if weighted:
        ctx.check(t.tholder.sith == Tholder(sith=th).sith, "weighted threshold")
    ctx.check(t.pre == (s.said if code else ks[0]), "identifier")


def rot(ctx, kind, v, sn, nc, na):
    at = ctx.integer("sn", *sn)
    ws = [wit(i) for i in range(3)]
    toad = ctx.integer("toad", 1, 3 - nc + na)
    p = Diger(raw=ctx.bytes_("p", 2) + bytes(30), code=MtrDex.Blake3_256).qb64
    s = rotate(key(0).qb64, keys(1), p, sn=at, ndigs=digs(2), wits=ws, cuts=ws[:nc], adds=[wit(5 + i) for i in range(na)], toad=toad,
               kind=kind, version=v)
    t = around(ctx, s, kind, v)
    ctx.check(t.sn == at and t.prior == p and t.bn == toad, "rotation content")
    ctx.check(list(t.cuts) == ws[:nc] and list(t.adds) == [wit(5 + i) for i in range(na)], "rotation witnesses")


def seal(ctx, i, what, top):
    d = Diger(raw=ctx.bytes_("d%d" % i, 2) + bytes([i] * 30), code=MtrDex.Blake3_256).qb64
    s = "%x" % ctx.integer("s%d" % i, 0, top) if what in "es" else None
    return {"d": dict(d=d), "r": dict(rd=d), "e": dict(i=key(i).qb64, s=s, d=d), "s": dict(s=s, d=d), "l": dict(i=key(i).qb64),
            "b": dict(bi=wit(i), d=d), "k": dict(t=VERSER, d=d)}[what]


def ixn(ctx, kind, v, seals, sn, top):
    at = ctx.integer("sn", *sn)
    data = [seal(ctx, i, w, top) for i, w in enumerate(seals)]
    s = interact(key(0).qb64, nosaid(0), sn=at, data=data, kind=kind, version=v)
    t = around(ctx, s, kind, v)
    ctx.check(t.sn == at and t.prior == nosaid(0) and t.pre == key(0).qb64, "interaction content")
    ctx.check(len(t.seals) == len(data), "anchored seals lost or added")
    for a, b in zip(t.seals, data):
        ctx.check(dict(a) == b and list(a) == list(b), "anchored seal differs")


def odd(ctx, kind, v):
    """an anchor that is none of the known seals survives or is refused"""
    data = [ctx.choose("a", [dict(d=nosaid(1)), dict(x="1"), dict(s="1", d=nosaid(1)), dict(foo=["a", dict(b="c")]), dict(d=nosaid(2), i=key(1).qb64)])
            for _ in range(1)] + [dict(d=nosaid(3)), ctx.choose("b", [dict(y="z"), dict(d=nosaid(4))])]
    try:
        s = interact(key(0).qb64, nosaid(0), sn=1, data=data, kind=kind, version=v)
    except Exception:
        ctx.reach("refused")
        return
    t = SerderKERI(raw=s.raw)
    ctx.check([dict(x) for x in t.seals] == data, "anchor lost")
    ctx.reach("kept")


def free(ctx, kind, v, ilk, depth, width, nums):
    """messages carrying free data"""
    st = lambda n: ctx.str_(n, width)
    val = st("a")
    for i in range(depth):
        val = [dict(k=val, n=(ctx.integer("n%d" % i, *nums) if nums else ctx.choose("n%d" % i, [-1, 0, 7000]))), ctx.boolean("b%d" % i), None]
    data = dict(z=val, q="\u00e9")
    sad = dict(dt=DT % 5, r="/a/b")
    if v == Vrsn_2_0:
        sad["i"] = key(0).qb64
    if ilk == "qry":
        sad.update(rr="", q=data)
    elif ilk == "rpy":
        sad.update(a=data)
    else:
        sad.update(dict(i=key(0).qb64, p="", a=data), **(dict(rp="", q={}, e={}) if v == Vrsn_1_0 else dict(ri=key(1).qb64, x="")))
    s = SerderKERI(makify=True, ilk=ilk, kind=kind, pvrsn=v, sad=sad)
    t = around(ctx, s, kind, v)
    ctx.check(t.sad["q" if ilk == "qry" else "a"] == data, "free data differs")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect=("read",), **p):
        out.append(dict(name=name, fn=fn, params=p, expect=list(expect)))
    for kind, v in SHAPES:
        tag = "%s%d" % (kind, v.major)
        for nk, nw, code, w in [(1, 0, None, False), (1, 2, MtrDex.Blake3_256, False), (2, 0, MtrDex.Blake3_256, True)] + \
                ([(3, 1, MtrDex.SHA3_256, False), (2, 1, MtrDex.Blake2b_256, True)] if T else []):
            add("icp-%s-%d%d%s%s" % (tag, nk, nw, code or "", "w" if w else ""), inc, kind=kind, v=v, nk=nk, nw=nw, code=code, weighted=w)
        for nc, na in [(1, 2)] + ([(0, 0), (2, 0)] if T else []):
            add("rot-%s-%d%d" % (tag, nc, na), rot, kind=kind, v=v, sn=(1, 2 ** 70 if T else 2 ** 20), nc=nc, na=na)
        for seals in ["", "d", "e", "des", "ddee", "rlb", "k", "sdsd"] + (["dede", "eedd", "sslrbk", "kkdd"] if T else []):
            if not T and seals not in ("des", "") and kind != N:
                continue
            add("ixn-%s-%s" % (tag, seals), ixn, kind=kind, v=v, seals=seals, sn=(1, 2 ** 30) if T or not seals else (1, 3), top=2 ** 32 if T else 2 ** 8)
        add("odd-" + tag, odd, expect=["refused", "kept"] if kind == N else ["kept"], kind=kind, v=v)
        if kind != N:
            for ilk in ("qry", "rpy", "exn"):
                add("free-%s-%s" % (tag, ilk), free, kind=kind, v=v, ilk=ilk, depth=1 if not T else 2, width=1 if not T else 2, nums=(-2 ** 31, 2 ** 32) if T else None)
    return out


BOUNDS = "inceptions with 1 to 2 keys (thorough 3), rotations and interactions with numbers to 2^20 and 2^30 (thorough 2^70 in rotations), up to 6 seals of seven sorts in any grouping, free data with any one character (thorough two) and nested maps; JSON, MGPK, CBOR and native CESR, both versions"
OUTSIDE = "free data in native CESR messages (C36); larger content"
ASSUMPTIONS = ["digests have no collisions"]
