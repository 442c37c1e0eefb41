"""Serder on the bytes of real messages with a window of symbolic bytes, and on field maps with a field dropped,
repeated, moved or added; digests are collision free."""
from checks.kel import *
from keri.core import serdering
from keri.core.serdering import SerderKERI, SerderACDC, Serdery
from keri.core.coring import DigDex
from keri.core.eventing import incept, rotate, interact, delcept, query, reply
from keri.core.counting import GenDex
from keri.kering import Kinds, Protocols, versify

DT = "2021-01-01T00:00:00.000000+00:00"


def messages(kind, v):
    """real messages of every sort: name -> serder"""
    k = dict(kind=kind, version=v)
    pv = dict(pvrsn=v)
    out = {}
    icp = incept(keys=keys(0), ndigs=digs(1), wits=[wit(0)], toad=1, **k)
    out["icp"] = icp
    out["icpd"] = incept(keys=keys(0, 1), ndigs=digs(1), code=MtrDex.Blake3_256, isith="2", **k)
    out["dip"] = delcept(keys=keys(0), delpre=icp.pre, ndigs=digs(1), **k) if v == Vrsn_1_0 or kind != Kinds.cesr else None
    out["ixn"] = interact(icp.pre, icp.said, sn=1, data=[dict(i=icp.pre, s="0", d=icp.said)], **k)
    out["rot"] = rotate(icp.pre, keys(1), icp.said, sn=1, ndigs=digs(2), wits=[wit(0)], cuts=[wit(0)], adds=[wit(1)], toad=1, **k)
    if kind != Kinds.cesr:
        out["rpy"] = SerderKERI(makify=True, ilk="rpy", kind=kind, **pv, sad=dict(dt=DT, r="/loc/scheme", a=dict(eid=icp.pre, url="http://a.b/")) |
                                (dict(i=icp.pre) if v != Vrsn_1_0 else {}))
        out["qry"] = SerderKERI(makify=True, ilk="qry", kind=kind, **pv, sad=dict(dt=DT, r="logs", rr="", q=dict(i=icp.pre, s="1")) |
                                (dict(i=icp.pre) if v != Vrsn_1_0 else {}))
    return {n: s for n, s in out.items() if s is not None}


def acdc(kind, v=Vrsn_1_0):
    sad = dict(v="", d="", i=key(0).qb64, ri=nosaid(1), s=nosaid(2), a=dict(d=nosaid(3), i=key(1).qb64, n="x"))
    return SerderACDC(makify=True, kind=kind, pvrsn=v, ilk=None, sad=sad)


def get(kind, v, name):
    return acdc(kind) if name == "acdc" else messages(kind, v)[name]


def tamper(ctx, kind, v, name, at, width, klas, via):
    good = get(kind, v, name)
    raw = good.raw
    at = at if at >= 0 else len(raw) + at
    win = ctx.bytes_("win", width)
    ctx.assume(win != raw[at:at + width])
    bad = raw[:at] + win + raw[at + width:]
    try:
        if via == "raw":
            s = klas(raw=bad)
        else:
            s = Serdery().reap(bytearray(bad), GenDex.KERI, Vrsn_2_0)
    except Exception:
        ctx.reach("refused")
        return
    ctx.check(False, "changed message accepted", lambda: repr((name, at)))


def honest(ctx, kind, v, name, klas):
    """the same message unchanged is accepted and bound to its bytes"""
    good = get(kind, v, name)
    tail = ctx.bytes_("tail", 3)
    s = klas(raw=good.raw + tail)
    ctx.check(s.raw == good.raw and s.said == good.said and s.size == len(good.raw) and s.sad == good.sad, "message from stream differs")
    buf = bytearray(good.raw + tail)
    s = klas(raw=buf, strip=True)
    ctx.check(bytes(buf) == tail, "stripping takes more or less than the message")
    ctx.check(s.raw == good.raw, "stripped message differs")
    ctx.reach("accepted")


def fieldmap(ctx, kind, v, name, op, klas):
    """dropped, added, swapped or renamed fields under a said recomputed over the changed map"""
    good = get(kind, v, name)
    sad = good.sad
    labels = list(sad)
    fields = klas.Fields[good.proto][good.pvrsn][good.ilk]
    n = len(labels)
    i = ctx.choose("i", list(range(1, n))) if op != "end" else None
    items = list(sad.items())
    if op == "drop":
        if labels[i] in fields.opts:
            ctx.assume(False)
        items.pop(i)
    elif op == "swap":
        j = ctx.choose("j", [j for j in range(1, n) if j != i])
        if not klas.Fields or i == j:
            ctx.assume(False)
        items[i], items[j] = items[j], items[i]
    elif op == "add":
        if not fields.strict:
            ctx.assume(False)
        x = ctx.str_("x", 1, "wQ")
        ctx.assume(x != "q")
        items.insert(i, (x, "1"))
    elif op == "end":
        if not fields.strict:
            ctx.assume(False)
        items.append((ctx.str_("x", 1, "wQ"), ctx.str_("y", 1)))
    bad = dict(items)
    # recompute size and said the way the rules say
    for lab, code in fields.saids.items():
        if lab in bad and bad[lab][:1] in "EFGHI" and (lab == "d" or bad[lab] == good.said):
            bad[lab] = "#" * 44
    said = None
    dump = good.dumps
    size = len(dump(bad, kind=kind))
    bad["v"] = versify(proto=good.proto, pvrsn=good.pvrsn, kind=kind, size=size, gvrsn=good.gvrsn)
    said = Diger(ser=dump(bad, kind=kind)).qb64
    for lab in bad:
        if isinstance(bad[lab], str) and bad[lab] == "#" * 44:
            bad[lab] = said
    raw = dump(bad, kind=kind)
    for label, make in (("sad", lambda: klas(sad=bad)), ("raw", lambda: klas(raw=raw))):
        try:
            make()
        except Exception:
            continue
        ctx.check(False, "message with wrong fields accepted", lambda: repr((label, name, op, i)))
    ctx.reach("refused")


def nondigest(ctx, kind, v, name, klas):
    """a said field that holds some other primitive of any code letter is refused"""
    good = get(kind, v, name)
    c = ctx.str_("code", 1, "ABCDEFGHIJOQabNPMKLRSTUVWXYZ")
    sad = good.sad
    ctx.assume(c != sad["d"][0])
    sad["d"] = c + sad["d"][1:]
    if sad.get("i") == good.said:
        sad["i"] = sad["d"]
    try:
        klas(sad=sad)
    except Exception:
        ctx.reach("refused")
        return
    ctx.check(False, "message accepted whose said is no digest of it", lambda: sad["d"])


def cases(tier):
    T = tier == "thorough"
    out = []
    J, M, C, N = Kinds.json, Kinds.mgpk, Kinds.cbor, Kinds.cesr
    shapes = [(J, Vrsn_1_0), (J, Vrsn_2_0), (M, Vrsn_1_0), (C, Vrsn_1_0), (M, Vrsn_2_0), (C, Vrsn_2_0), (N, Vrsn_2_0)]
    for kind, v in shapes:
        ms = messages(kind, v)
        if v == Vrsn_1_0:
            ms = dict(ms, acdc=acdc(kind))
        for name, s in ms.items():
            klas = SerderACDC if name == "acdc" else SerderKERI
            tag = "%s%d-%s" % (kind, v.major, name)
            out.append(dict(name="honest-" + tag, fn=honest, params=dict(kind=kind, v=v, name=name, klas=klas), expect=["accepted"]))
            if kind != N:
                for op in ("drop", "swap", "add", "end"):
                    if klas is SerderACDC and op != "swap" or (v == Vrsn_2_0 and not T and op != "add") or kind != J and (not T or op in ("add", "end")):
                        continue
                    out.append(dict(name="%s-%s" % (op, tag), fn=fieldmap, params=dict(kind=kind, v=v, name=name, op=op, klas=klas), expect=["refused"],
                                    weight=3))
                out.append(dict(name="nondig-" + tag, fn=nondigest, params=dict(kind=kind, v=v, name=name, klas=klas), expect=["refused"]))
            raw = s.raw
            L = len(raw)
            if T:
                spots = [(a, 1) for a in range(L)] + ([(a, 2) for a in range(0, L - 1, 2)] if kind == N else [])
            else:
                # inside the value of some fields (all in two shapes), and one structural byte
                pos = []
                for n, (lab, val) in enumerate(s.sad.items()):
                    if isinstance(val, (list, dict)):
                        val = next((x for x in (val.values() if isinstance(val, dict) else val) if isinstance(x, str)), "")
                    i = raw.find(val.encode()) if isinstance(val, str) and len(val) > 1 else -1
                    if i > 0:
                        pos.append(i + (7 * n + len(tag)) % len(val))
                if (kind, v) not in ((J, Vrsn_1_0), (N, Vrsn_2_0)):
                    pos = pos[len(tag) % 2::2]
                spots = sorted(set((a, 1) for a in pos)) + [(L - 1 if kind != N else 0, 1)]
            for a, w in spots:
                out.append(dict(name="tamper-%s-%d-%d" % (tag, a, w), fn=tamper,
                                params=dict(kind=kind, v=v, name=name, at=a, width=w, klas=klas, via="reap" if a % 3 == 0 and kind != N else "raw"),
                                expect=["refused"], validate=1))
    return out


BOUNDS = "real messages of 8 sorts in 7 combinations of serialization and version, one byte (thorough also two in native CESR) replaced by any other value at positions spread over the message (thorough: every position), followed by any bytes; any one field dropped, any two swapped, an unknown field put anywhere, with size and digest recomputed; every code letter in the said field"
OUTSIDE = "wider changes; messages of types with no digest of their own (receipts)"
ASSUMPTIONS = ["digests have no collisions"]
