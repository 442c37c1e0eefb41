"""The real Compactor, Aggor and SerderACDC on trees of blocks with symbolic content, given in every degree of expansion. Oracle: the digest of each block worked out
bottom up by itself, each inner block that has a digest standing there as that digest. Disclosures, messages and sections are then changed and must not verify."""
from checks.kel import *
from copy import deepcopy
from keri import kering
from keri.core.mapping import Mapper, Compactor, Aggor
from keri.core.coring import Diger, DigDex, Noncer
from keri.core.serdering import SerderACDC
from keri.acdc import messaging as am
from keri.kering import Kinds, Ilks

J, M, C, N = Kinds.json, Kinds.mgpk, Kinds.cbor, Kinds.cesr
REFUSED = (ValueError, kering.KeriError)


def tree(name, x, y):
    return dict(one=dict(d="", a=x),
                two=dict(d="", a=x, b=dict(d="", c=y)),
                three=dict(d="", b=dict(d="", c=x, e=dict(d="", f=y)), g=1),
                gap=dict(d="", b=dict(c=dict(d="", f=x), u="u"), e=dict(d="", f=dict(h=dict(d="", q=y)))),
                topless=dict(a=x, b=dict(d="", c=y)),
                lists=dict(d="", l=[dict(d="", w=x)], m=dict(n=dict(o=y))),
                sides=dict(d="", a=dict(d="", x=x), b=dict(d="", x=y), c=dict(d="", x=x)))[name]


def said(mad, kind, saids=None):
    """the block as compact as it can be, with its digests, by itself"""
    out = {}
    for k, v in mad.items():
        if isinstance(v, dict):
            v = said(v, kind)
            if "d" in v:
                v = v["d"]
        out[k] = v
    if "d" in out:
        out = Mapper(mad=out, makify=True, saidive=True, kind=kind).mad
    return out


def filled(mad, kind):
    """wholly expanded, every digest in its place"""
    out = {k: filled(v, kind) if isinstance(v, dict) else v for k, v in mad.items()}
    if "d" in out:
        out["d"] = said(mad, kind)["d"]
    return out


def degree(ctx, mad, kind, path="", blank=True):
    """some blocks as their digest, the others expanded, their digest there or blank"""
    out = {}
    for k, v in mad.items():
        if isinstance(v, dict):
            p = path + "." + k
            if "d" in v and ctx.boolean("c" + p):
                v = said(v, kind)["d"]
            else:
                v = degree(ctx, v, kind, p, blank)
        out[k] = v
    if "d" in out and not (blank and ctx.boolean("b" + path)):
        out["d"] = said(mad, kind)["d"]
    return out


def known(full, given):
    """wholly expanded as far as given"""
    return {k: (known(full[k], v) if isinstance(v, dict) else full[k] if k == "d" else v) for k, v in given.items()}


def alike(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return isinstance(a, str) == isinstance(b, str) and not isinstance(b, (dict, list)) and a == b


def xy(ctx, free):
    return ctx.str_("x", 1, "ab") if free else "a", "y"


def compact(ctx, name, kind, free, greedy):
    full = tree(name, *xy(ctx, free))
    given = degree(ctx, full, kind)
    kept = deepcopy(given)
    want, whole = said(full, kind), filled(full, kind)
    c = Compactor(mad=given, makify=True, kind=kind)
    ctx.check(alike(given, kept), "what the caller gave is changed")
    c.compact()
    ctx.check(alike(c.mad, want), "most compact form", lambda: dict(got=str(c.mad), want=str(want)))
    ctx.check(c.said == want.get("d"), "digest of the most compact form")
    ctx.check(c.iscompact is True or "d" not in full, "compact or not")
    for path, leafer in c.leaves.items():
        w = whole
        for part in path.split(".")[1:]:
            w = w[part]
        ctx.check(leafer.said == w["d"] and alike(leafer.mad, said(w, kind)), "digest of a block within")
    if not c.leaves:
        ctx.reach("done")
        return
    c.expand(greedy=greedy)
    ctx.check(alike(c.mad, want), "most compact form changed by expanding")
    last = None
    for index, p in c.partials.items():
        ctx.check(alike(Mapper(raw=p.raw, kind=kind).mad, p.mad), "bytes of a partial form")
        ctx.check(p.said == want.get("d"), "digest of a partial form")
        if not greedy or p is list(c.partials.values())[-1]:
            q = Compactor(mad=p.mad, makify=True, kind=kind)
            q.compact()
            ctx.check(alike(q.mad, want), "partial form compacts to something else")
        last = p
    if greedy and last is not None:
        ctx.check(alike(last.mad, known(whole, given)), "wholly expanded form", lambda: dict(got=str(last.mad)))
    t = Compactor(mad=given, makify=True, kind=kind)
    t.trace(saidify=True)
    ctx.check(t.raw == Mapper(mad=t.mad, kind=kind).raw, "bytes of a traced map")
    other = Compactor(mad=tree(name, "z", "y"), makify=True, kind=kind)
    other.compact()
    ctx.check(other.said is None or other.said != c.said, "other content with the same digest")
    ctx.reach("done")


def dotted(ctx, kind):
    """names of fields that could be taken for a path"""
    l = ctx.str_("l", 2, "a.")
    mad = {"d": "", l: dict(d="", q=1), "z": dict(d="", q=2)}
    c = Compactor(mad=mad, makify=True, kind=kind)
    try:
        c.compact()
    except REFUSED:
        ctx.check("." in l, "compaction refused")
        ctx.reach("refused")
        return
    ctx.check(c.said == said(mad, kind)["d"], "digest of the most compact form")
    ctx.reach("done")


# ---- aggregates

def elements(ctx, n, free):
    out = [""]
    for i in range(n):
        if not free and ctx.boolean("bare%d" % i):
            out.append(Diger(ser=b"%d" % i, code=DigDex.Blake3_256).qb64)
        else:
            out.append(dict(d="", u=i, x=ctx.str_("x%d" % i, 1, "ab") if free and i == 0 else "x"))
    return out


def aggregate(ctx, n, kind, free):
    ael = elements(ctx, n, free)
    kept = deepcopy(ael)
    a = Aggor(ael=ael, makify=True, kind=kind)
    ctx.check(alike(ael, kept), "what the caller gave is changed")
    made = [Mapper(mad=e, makify=True, saidive=True, kind=kind).mad if isinstance(e, dict) else e for e in ael]
    ctx.check(alike(a.ael[1:], made[1:]), "elements of the aggregate")
    bare = [e["d"] if isinstance(e, dict) else e for e in made]
    for b in (Aggor(raw=a.raw, kind=kind), Aggor(ael=a.ael, kind=kind)) + ((Aggor(qb2=a.qb2), ) if kind == N else ()):
        ctx.check(alike(b.ael, a.ael) and b.agid == a.agid and b.raw == a.raw, "aggregate read back differs")
    ctx.check(a.size == len(a.raw) and Diger(qb64=a.agid).code == DigDex.Blake3_256, "size")
    ask = [1] if free else [i for i in range(-1, n + 2) if (1 <= i <= n or n == 1) and ctx.boolean("ask%d" % i)]
    dael, dk = a.disclose(ask)
    ctx.check(dk == kind and dael[0] == a.agid and len(dael) == n + 1, "disclosure")
    for i in range(1, n + 1):
        show = i in ask and isinstance(made[i], dict)
        ctx.check(alike(dael[i], made[i] if show else bare[i]), "element disclosed or not")
    ctx.check(Aggor.verifyDisclosure(dael, kind=kind) is True, "true disclosure does not verify")
    b = Aggor(ael=dael, kind=kind)
    ctx.check(b.agid == a.agid and alike(Aggor(raw=b.raw, kind=kind).ael, dael), "disclosure read back")
    bad = list(dael)
    how = ctx.choose("how", ["agid", "value"] if free else ["agid", "swap", "drop", "more", "value", "field", "nosaid", "bare", "none"])
    i = ctx.choose("i", list(range(1, n + 1))) if n else 0
    if how == "none":
        bad = []
    elif how == "agid":
        bad[0] = Diger(ser=b"other", code=DigDex.Blake3_256).qb64
    elif how == "more":
        bad.append(ctx.choose("m", [bare[-1], Diger(ser=b"q", code=DigDex.Blake3_256).qb64]))
    elif n == 0:
        raise_cut(ctx)
    elif how == "swap":
        j = i % n + 1
        ctx.assume(i != j)
        bad[i], bad[j] = bad[j], bad[i]
    elif how == "drop":
        del bad[i]
    elif how == "bare":
        bad[i] = Diger(ser=b"o", code=DigDex.Blake3_256).qb64
    else:
        ctx.assume(isinstance(bad[i], dict))
        bad[i] = dict(bad[i])
        if how == "value":
            bad[i]["x"] = "c"
        elif how == "field":
            bad[i]["y"] = None
        else:
            bad[i] = {k: v for k, v in bad[i].items() if k != "d"}
    ctx.check(Aggor.verifyDisclosure(bad, kind=kind) is False, "changed disclosure verifies", lambda: how)
    ctx.reach("refused")


def raise_cut(ctx):
    ctx.assume(False)


HEAD = {J: 5, M: 3, C: 3}   # what stands before the list in a map of one field


def unbound(ctx, kind, made):
    """an element that has no digest of its own cannot be in an aggregate"""
    x = ctx.str_("x", 1, "ab")
    ael = ["", dict(q=x)] if made else [Diger(ser=Mapper(mad={"q": ["#" * 44, None]}, kind=kind).raw[HEAD[kind]:][:-1 if kind == J else None]).qb64, dict(q=x)]
    try:
        a = Aggor(ael=ael, makify=made, kind=kind)
    except REFUSED:
        ctx.reach("refused")
        return
    other = [a.agid, dict(q="c")]
    ctx.check(not Aggor.verifyDisclosure(other, kind=kind), "element not under the digest of the aggregate")
    ctx.reach("done")


# ---- messages

def parts(x):
    return dict(a=dict(d="", u="0AAwc2FsdG5vbmNlYmxpbmRl", i=nosaid(8), x=x, n=dict(d="", y=1)),
                e=dict(d="", far=dict(d="", n=nosaid(9), o="I2I")),
                r=dict(d="", l="terms"))


def schema(kind):
    return Mapper(mad={"$id": "", "type": "object"}, makify=True, strict=False, saids={"$id": "E"}, saidive=True, kind=kind).mad


def message(ilk, kind, s, secs, compactify=False):
    kw = dict(uuid="0AAxc2FsdG5vbmNlYmxpbmRl", regid=nosaid(7), schema=s, edge=secs["e"], rule=secs["r"], kind=kind, compactify=compactify)
    i = nosaid(6)
    secs = deepcopy(secs)
    if ilk == Ilks.act:
        return am.acdcatt(i, attribute=secs["a"], **kw)
    if ilk == Ilks.acg:
        return am.acdcagg(i, aggregate=secs["A"], **kw)
    return am.acdcmap(i, ilk=ilk, attribute=secs.get("a"), aggregate=secs.get("A"), **kw)


def sections(ctx, kind, agg, x, pick):
    """each section wholly there, in part, or as its digest; with what they commit to"""
    p = parts(x)
    out, want = {}, {}
    if agg:
        ag = Aggor(ael=["", dict(d="", x=x), dict(d="", y=1)], makify=True, kind=kind)
        want["A"] = ag.agid
        how = ctx.choose("A", ["said", "whole", "part"]) if "A" in pick else "whole"
        out["A"] = ag.agid if how == "said" else ag.ael if how == "whole" else ag.disclose([2])[0]
        del p["a"]
    for l, full in p.items():
        want[l] = said(full, kind)["d"]
        if l not in pick:
            out[l] = filled(full, kind)
        else:
            out[l] = want[l] if ctx.boolean("said" + l) else degree(ctx, full, kind, l)
    return out, want


def acdc(ctx, ilk, kind, agg, pick, free):
    x = ctx.str_("x", 1, "ab") if free else "a"
    s = schema(kind)
    secs, want = sections(ctx, kind, agg, x, pick)
    full = ctx.boolean("schema")
    m = message(ilk, kind, s if full else s["$id"], secs)
    ref = message(ilk, kind, s["$id"], {**want})
    ctx.check(m.said == ref.said, "digest differs with what is disclosed")
    for l in want:
        ctx.check(alike(m.sad[l], secs[l]), "section changed by making the message")
    r = SerderACDC(raw=m.raw)
    ctx.check(alike(r.sad, m.sad) and r.said == m.said and r.raw == m.raw, "message read back differs")
    z = message(ilk, kind, s, secs, compactify=True)
    ctx.check(z.said == m.said and alike(z.sad, ref.sad) and z.raw == ref.raw, "compacted message")
    if not pick:
        o = message(ilk, kind, s["$id"], sections_of(kind, agg, "z"))
    ctx.check(pick or o.said != m.said, "other content with the same digest")
    ctx.reach("done")


def sections_of(kind, agg, x):
    out = {l: filled(v, kind) for l, v in parts(x).items()}
    if agg:
        del out["a"]
        out["A"] = Aggor(ael=["", dict(d="", x=x), dict(d="", y=1)], makify=True, kind=kind).ael
    return out


def blocks(v, path=""):
    """the blocks of a section"""
    out = []
    if isinstance(v, dict):
        if "d" in v:
            out.append((path, v))
        for k, w in v.items():
            out += blocks(w, path + "." + k)
    elif isinstance(v, list):
        for i, w in enumerate(v):
            out += blocks(w, path + ".%d" % i)
    return out


def forged(ctx, ilk, kind, agg, sect):
    """a disclosed block under a digest that is not its own, or with other content, in a message otherwise all right"""
    x = "a"
    secs = sections_of(kind, agg, x)
    l = ctx.choose("l", [k for k in ("a", "A", "e", "r") if k in secs])
    v = secs[l]
    bs = blocks(v)
    b = bs[ctx.choose("b", list(range(len(bs))))][1] if bs else None
    good = message(ilk, kind, schema(kind)["$id"], secs) if not sect else SECT[l](deepcopy(v), kind=kind)
    how = ctx.choose("how", ["digest", "content", "agid"])
    if how == "agid":
        ctx.assume(l == "A")
        v[0] = Diger(ser=b"agid").qb64
    elif how == "digest":
        b["d"] = Diger(ser=b"x", code=ctx.choose("code", [DigDex.Blake3_256, DigDex.SHA3_256])).qb64
    else:
        b["more"] = "m"
    # as a forger would make it
    sad = deepcopy(good.sad)
    sad[l] = v
    try:
        f = SerderACDC(sad=sad, makify=True, verify=False)
    except REFUSED:
        ctx.reach("refused")
        return
    try:
        SerderACDC(raw=f.raw)
    except REFUSED:
        ctx.reach("refused")
        return
    ctx.check(False, "block accepted under a digest that is not its own", lambda: (l, how))


SECT = dict(a=am.sectattr, A=am.sectaggr, e=am.sectedge, r=am.sectrule)


def section(ctx, kind, l):
    """a section told apart from its message carries the digest the message commits to"""
    x = ctx.str_("x", 1, "ab")
    agg = l == "A"
    secs = sections_of(kind, agg, x)
    m = message(Ilks.acg if agg else Ilks.acm, kind, schema(kind)["$id"], secs, compactify=True)
    s = SECT[l](deepcopy(secs[l]), kind=kind)
    r = SerderACDC(raw=s.raw)
    ctx.check(alike(r.sad, s.sad) and alike(r.sad[l], secs[l]), "section read back")
    ctx.check((r.sad[l][0] if agg else r.sad[l]["d"]) == m.sad[l], "section is not the one of the message")
    bare = SECT[l](m.sad[l], kind=kind)
    ctx.check(SerderACDC(raw=bare.raw).sad[l] == m.sad[l], "section given as its digest")
    ctx.reach("done")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(cname, fn, expect, weight=1, **params):
        out.append(dict(name=cname, fn=fn, params=params, expect=expect, weight=weight))
    for kind in (N, J, M, C):
        for name in ("one", "two", "three", "gap", "topless", "lists", "sides"):
            for free in (False, True):
                for greedy in (True, False):
                    if not T and (free and (name in ("gap", "three", "sides") or not greedy or kind in (M, C)) or not greedy and kind != J):
                        continue
                    add("compact-%s-%s-%s-%s" % (kind, name, "free" if free else "fixed", "greedy" if greedy else "slow"), compact, ["done"], name=name, kind=kind, free=free, greedy=greedy,
                        weight=12 if free else 4)
        if kind != N:
            add("dotted-%s" % kind, dotted, ["refused", "done"], kind=kind)
            out[-1]["path_limit"] = 30
        for n in range(0, 4 if T else 3):
            for free in (False, True):
                if free and (not n or not T and (n > 1 or kind in (M, C))):
                    continue
                add("aggregate-%s-%d-%s" % (kind, n, "free" if free else "fixed"), aggregate, ["refused"], n=n, kind=kind, free=free, weight=3 * n + 1)
        for made in (True, False) if kind != N else (True,):
            add("unbound-%s-%s" % (kind, made), unbound, ["refused"], kind=kind, made=made)
        for l in SECT:
            add("section-%s-%s" % (kind, l), section, ["done"], kind=kind, l=l, weight=3)
        for ilk, agg in ((Ilks.acm, False), (None, False), (Ilks.acm, True), (Ilks.act, False), (Ilks.acg, True)):
            for pick in ("aA", "e", "r", "") if not T else ("aAe", "er", "aAr", ""):
                if not T and (pick == "r" and kind != J or not pick and (kind in (M, C) or agg or ilk != Ilks.acm)):
                    continue
                add("acdc-%s-%s-%s-%s" % (kind, ilk, "agg" if agg else "att", pick or "free"), acdc, ["done"], ilk=ilk, kind=kind, agg=agg, pick=pick, free=not pick, weight=8)
            for sect in (False, True):
                if sect and ilk != Ilks.acm or not T and not sect and ilk in (None, Ilks.act) and kind != J:
                    continue
                add("forged-%s-%s-%s-%s" % (kind, ilk, "agg" if agg else "att", "section" if sect else "message"), forged, ["refused"], ilk=ilk, kind=kind, agg=agg, sect=sect, weight=5)
    return out


BOUNDS = ("seven trees of up to four blocks up to three deep, with blocks inside plain maps and plain maps inside blocks, each block expanded or as its digest, its digest there or "
          "blank; aggregates of up to 2 (3) elements, each a block or digest, every disclosure, nine ways of changing it; messages of four types with schema, attributes or "
          "aggregate, edges and rules in every degree of disclosure; sections by themselves; a character of content free; four serializations")
OUTSIDE = "blocks inside lists of a section (these are no blocks to the code); digests other than Blake3-256 of inner blocks; inner ids of schemas; checking of schemas (C30)"
ASSUMPTIONS = ["digests never collide"]
