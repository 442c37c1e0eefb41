"""The real Parser fed a stream of messages with attachments of symbolic content, made by the real messagize, in text or binary, cut at every place; what it dispatches
is compared with what went in. Faulty messages between good ones cost no more than themselves."""
from base64 import urlsafe_b64decode as dec64
from checks.kel import *
from keri.core import parsing
from keri.core.parsing import Parser
from keri.core.coring import Number, Diger, Prefixer, Dater, Verser, Noncer, Labeler, Texter
from keri.core.counting import Counter, Codens
from keri.core.indexing import Siger, IdrDex
from keri.core.coring import Cigar
from keri.core.eventing import messagize
from keri.core.structing import SealEvent, SealSource, SealKind, FirstSeen, BlindState, BoundState, TypeMedia, TransSigs, TransLastSigs, TransReceipts
from keri.kering import Kinds

DBG = __import__("os").environ.get("DBG")
J, M, C, N = Kinds.json, Kinds.mgpk, Kinds.cbor, Kinds.cesr
V1, V2 = Vrsn_1_0, Vrsn_2_0


def event(j, kind, v):
    return interact(nosaid(1), nosaid(2 + j), sn=1 + j, data=[], kind=kind, version=v)


class Made:
    """a message and its attachments"""
    def __init__(self, ctx, j, kind, v, what, gv=None, **kwa):
        self.j, self.ctx, self.n = j, ctx, 0
        self.serder = event(j, kind, v)
        self.v2 = (gv or v) == V2
        self.exp = {}
        args = dict(bonds=[])
        for w in what:
            self.add(w, args)
        if not args["bonds"]:
            del args["bonds"]
        if what:
            self.stream = messagize(self.serder, **args, **(dict(gvrsn=gv) if gv else {}), **kwa)
            return
        body = Counter.enclose(qb64=Texter(raw=self.serder.raw).qb64b, code=Codens.NonNativeBodyGroup, version=V2) if kwa.get("nested") and kind != N else self.serder.raw
        self.stream = Counter.enclose(qb64=body, code=Codens.BodyWithAttachmentGroup, version=V2) if kwa.get("nested") else bytearray(body) + Counter(Codens.AttachmentGroup, count=0, version=gv or v).qb64b

    def raw(self, size):
        self.n += 1
        return self.ctx.bytes_("m%d_%d" % (self.j, self.n), 1) + bytes([self.n] * (size - 1))

    def siger(self):
        i = self.ctx.integer("i%d_%d" % (self.j, self.n), 0, 2)
        return Siger(raw=self.raw(64), code=IdrDex.Ed25519_Sig, index=i)

    def pre(self):
        return Prefixer(raw=self.raw(32), code=MtrDex.Ed25519)

    def diger(self):
        return Diger(raw=self.raw(32), code=MtrDex.Blake3_256)

    def number(self):
        self.n += 1
        return Number(num=self.ctx.integer("n%d_%d" % (self.j, self.n), 0, 3), **(dict(code="M") if self.v2 else {}))

    def add(self, w, args):
        def put(name, exp, x):
            args.setdefault(name, []).append(x)
            self.exp.setdefault(exp, []).append(x)
        if w == "K":
            put("sigers", "sigers", self.siger())
        elif w == "L":
            put("wigers", "wigers", self.siger())
        elif w == "M":
            put("cigars", "cigars", Cigar(raw=self.raw(64), verfer=Verfer(raw=self.raw(32), code=MtrDex.Ed25519N)))
        elif w in "XN":
            put("tsgs" if w == "X" else "rsgs", "tsgs" if w == "X" else "rsgs", (TransSigs if w == "X" else TransReceipts)(self.pre(), self.number(), self.diger(), [self.siger(), self.siger()]))
        elif w == "Y":
            put("lsgs", "lsgs", TransLastSigs(self.pre(), [self.siger(), self.siger()]))
        elif w == "S":
            put("bonds", "sscs", SealSource(self.number(), self.diger()))
        elif w == "T":
            put("bonds", "ssts", SealEvent(self.pre(), self.number(), self.diger()))
        elif w == "O":
            put("bonds", "frcs", FirstSeen(self.number(), Dater(dts="2021-01-01T00:00:0%d.000000+00:00" % self.n)))
        elif w == "W":
            put("bonds", "tdcs", SealKind(Verser(proto="KERI", pvrsn=V2, gvrsn=V2), self.diger()))
        elif w == "a":
            put("bonds", "bsqs", BlindState(self.diger(), Noncer(raw=self.raw(32), code=MtrDex.Blake3_256), Noncer(raw=self.raw(32), code=MtrDex.Blake3_256), Labeler(text="issued")))
        elif w == "b":
            put("bonds", "bsss", BoundState(self.diger(), Noncer(raw=self.raw(32), code=MtrDex.Blake3_256), Noncer(raw=self.raw(32), code=MtrDex.Blake3_256), Labeler(text="issued"), self.number(), Noncer(raw=self.raw(32), code=MtrDex.Blake3_256)))
        elif w == "c":
            put("bonds", "tmqs", TypeMedia(self.diger(), Noncer(raw=self.raw(32), code=MtrDex.Blake3_256), Labeler(text="text/plain"), Texter(raw=self.raw(4))))

    def binary(self):
        n = len(self.serder.raw)
        body, att = self.stream[:n], self.stream[n:]
        if self.serder.kind == N:
            body = dec64(bytes(body))
        return bytearray(body) + dec64(bytes(att))


FIELDS = ("sigers", "wigers", "cigars", "rsgs", "tsgs", "lsgs", "frcs", "sscs", "ssts", "tdcs", "bsqs", "bsss", "tmqs", "essrs", "ptds", "nests")


def same(a, b):
    """attachment b came out as a went in"""
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = r & same(x, y)
        return r
    if isinstance(a, Number):
        return a.num == b.num
    r = (a.raw == b.raw) if isinstance(a, (Labeler, Texter)) else (a.qb64b == b.qb64b)
    if isinstance(a, Siger):
        r = r & (a.index == b.index)
    if isinstance(a, Cigar):
        r = r & (a.verfer.qb64b == b.verfer.qb64b)
    return r


def compare(ctx, log, made):
    ctx.check([x["serder"].raw == m.serder.raw for x, m in zip(log, made)] == [True] * len(made) and len(log) == len(made), "messages that came out",
              lambda: [x["serder"].sn for x in log])
    for x, m in zip(log, made):
        for f in FIELDS:
            exp = m.exp.get(f, [])
            ctx.check(len(x[f]) == len(exp), "attachments that came out", lambda: (f, len(x[f]), len(exp)))
            for p, q in zip(exp, x[f]):
                ctx.check(same(p, q), "attachment that came out is another", lambda: (f, m.j))


def feeder(version=None, framed=False):
    log = []
    p = Parser(framed=framed, version=version) if version else Parser(framed=framed)
    p.msgProcess = lambda exts, **kwa: log.append(exts)
    return p, log


def stream(ctx, shapes, domain, pre=b""):
    made = [Made(ctx, j, **s) for j, s in enumerate(shapes)]
    ims = bytearray(pre)
    for m in made:
        ims = ims + (m.binary() if domain == "bny" else m.stream)
    return made, ims


def group(ims, code=Codens.GenericGroup, domain="txt"):
    """enclosed in a group (text only)"""
    return Counter.enclose(qb64=bytes(ims) if False else ims, code=code, version=V2)


def wrapped(ctx, shapes, wrap, version):
    """stream of messages, some in groups"""
    made, ims = [], bytearray()
    for j, s in enumerate(shapes):
        made.append(Made(ctx, j, **s))
    ms = [m.stream for m in made]
    if wrap == "GM":            # group of two, then one alone
        ims = group(ms[0] + ms[1]) + ms[2]
    elif wrap == "MG":
        ims = ms[0] + group(ms[1] + ms[2])
    elif wrap == "GG":
        ims = group(ms[0]) + group(ms[1] + ms[2])
    elif wrap == "G(G)M":
        ims = group(ms[0] + group(ms[1])) + ms[2]
    elif wrap == "G((G)M)":
        ims = group(group(group(ms[0]) + ms[1])) + ms[2]
    elif wrap == "VG":
        ims = Counter.makeGVC(version=V2) + group(ms[0] + ms[1]) + ms[2]
    elif wrap == "GV":
        ims = group(Counter.makeGVC(version=V2) + ms[0] + ms[1]) + ms[2]
    elif wrap == "VM":
        ims = Counter.makeGVC(version=V2) + ms[0] + ms[1] + ms[2]
    return made, ims


def grouped(ctx, shapes, wrap, version, n, part, thin=0, steps=3):
    made, ims = wrapped(ctx, shapes, wrap, version)
    run(ctx, made, ims, version, n, part, thin, steps)


def frame(ctx, shape, tail):
    """one message in a frame of its own, attachments bare or in a group or none"""
    made = Made(ctx, 0, **shape)
    p, log = feeder(shape.get("gv") or shape["v"], framed=True)
    p.parse(ims=bytearray() + (made.serder.raw if tail == "none" else made.stream))
    compare(ctx, log, [made])
    ctx.reach("all")


def feed(ctx, p, ims, cuts, steps):
    it = p.parsator()
    print("F", type(p.ims), cuts) if DBG else None
    at = 0
    for c in list(cuts) + [len(ims)]:
        p.ims.extend(ims[at:c]); print(at, c, len(p.ims)) if DBG else None
        at = c
        for _ in range(steps):
            next(it)
    for _ in range(8):
        next(it)


def cut(ctx, shapes, domain, version, n, part, thin=0, steps=3):
    """delivered in pieces"""
    made, ims = stream(ctx, shapes, domain)
    run(ctx, made, ims, version, n, part, thin, steps)


def run(ctx, made, ims, version, n, part, thin, steps):
    ims = bytearray() + ims
    p, log = feeder(version)
    L = len(ims)
    if n == "bytes":
        cuts = range(1, L)
    else:
        at = list(range(1, L))
        if thin:
            near, b = set(range(thin, L, thin)), 0
            for m in made:
                near |= set(range(max(1, b), b + 9)) | set(range(b + len(m.serder.raw) - 2, b + len(m.serder.raw) + 9))
                b += len(m.stream)
            near |= set(range(L - 9, L))
            at = [x for x in at if x in near]
        lo, hi = len(at) * part[0] // part[1], len(at) * (part[0] + 1) // part[1]
        if lo == hi:
            ctx.reach("all")
            return
        c = ctx.integer("cut", lo, hi - 1)
        cuts = [at[c.__index__()]]
        if n == 2:
            d = ctx.choose("more", [1, 3, 4, 30, 100])
            cuts.append(min(L, cuts[0] + d))
    p.ims = ims[:0]
    feed(ctx, p, ims, cuts, 1 if n == "bytes" else steps)
    print("DBG", type(ims), len(ims), len(p.ims), len(log)) if DBG else None
    compare(ctx, log, made)
    ctx.check(len(p.ims) == 0, "stream left over")
    ctx.reach("all")


def contain(ctx, shapes, domain, wrap, at, w, whole=False):
    """bytes inside a sized group of the first message are anything; the messages after the group come out as if it was not there"""
    made = [Made(ctx, j, **s) for j, s in enumerate(shapes)]
    ms = [m.binary() if domain == "bny" else m.stream for m in made]
    a = bytearray() + ms[0]
    if wrap == "C":             # its attachment group
        b = len(made[0].serder.raw) if made[0].serder.kind != N or domain == "txt" else len(made[0].serder.raw) * 3 // 4
        start, n = b + (4 if domain == "txt" else 3), None
    elif wrap == "B":           # message and attachments
        start, n = 4, None
    elif wrap == "A":           # group of messages
        a = bytearray() + group(ms[0] + ms[1])
        start, n = 4, None
    elif wrap == "AV":
        a = bytearray() + group(Counter.makeGVC(version=V2) + ms[0] + ms[1])
        start = 4
    elif wrap == "BV":          # with a version
        a = Counter.enclose(qb64=Counter.makeGVC(version=V2) + bytes(ms[0][4:]), code=Codens.BodyWithAttachmentGroup, version=V2)
        a = bytearray() + a
        start = 4
    elif wrap == "CV":
        b = len(made[0].serder.raw)
        a = bytearray() + ms[0][:b] + Counter.enclose(qb64=Counter.makeGVC(version=V2) + bytes(ms[0][b + 4:]), code=Codens.AttachmentGroup, version=V2)
        start = b + 4
    p = start + at if at >= 0 else len(a) + at
    bad = ctx.bytes_("bad", w)
    if p + w > len(a):
        ctx.reach("others")
        return
    ims = a[:p] + bad + a[p + w:]
    good = made[2:] if wrap[0] == "A" else made[1:]
    for m in ms[2:] if wrap[0] == "A" else ms[1:]:
        ims = ims + m
    p, log = feeder(V2)
    p.ims = ims
    it = p.parsator()
    for _ in range(12):
        next(it)
    ctx.check(len(p.ims) == 0, "stream left over")
    ctx.check(len(log) >= len(good), "messages after a faulty group lost", lambda: [x["serder"].sn for x in log])
    compare(ctx, log[len(log) - len(good):], good)
    ctx.check(p.version == V2, "version left behind")
    ctx.reach("others")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect, weight=1, validate=None, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=expect, weight=weight, **({} if validate is None else dict(validate=validate))))
    for v, g, vn, atts in ((V1, V1, "1", ("", "K", "KL", "KM", "KN", "X", "Y", "KS", "KT", "KO", "KLMNXYSTO")), (V1, V2, "12", ("K", "KLMNXYSTOWabc")), (V2, V2, "2", ("", "K", "KL", "KM", "KN", "X", "Y", "KS", "KT", "KO", "W", "a", "b", "c", "KLMNXYSTOWabc"))):
        for dom in ("txt", "bny"):
            for a in atts:
                kinds = (J, M, C) + (N,) * (v == V2) if a == "KS" else (J,)
                for k in kinds:
                    sh = [dict(kind=k, v=v, gv=g, what=a), dict(kind=J, v=v, gv=g, what="K")]
                    add("cut-%s-%s-%s-%s-bytes" % (vn, dom, a, k), cut, ["all"], shapes=sh, domain=dom, version=g, n="bytes", part=(0, 1))
                    for q in range(16 if T else 2):
                        add("cut-%s-%s-%s-%s-cut%d" % (vn, dom, a, k, q), cut, ["all"], shapes=sh, domain=dom, version=g, n=1, part=(q, 16 if T else 2), thin=0 if T else 90, validate=1)
    V = dict(kind=J, v=V2, what="K")
    for v in (V1, V2):
        for k in (J, M, C) + (N,) * (v == V2):
            for what in ("", "K", "KLMNXYSTO"):
                for t in ("", "framed") if what else ("none", ""):
                    add("frame-%d-%s-%s-%s" % (v.major, k, what, t), frame, ["all"], shape=dict(kind=k, v=v, gv=v, what=what, **(dict(framed=True) if t == "framed" else {})), tail=t)
    for wrap in ("GM", "MG", "GG", "G(G)M", "G((G)M)", "VG", "GV", "VM"):
        E, F = dict(V, nested=True), dict(V, kind=N)
        for nn, sh in (("B", [E, E, E]), ("C", [F, F, F]), ("M", [E, F, V if wrap[-1] == "M" and wrap[0] != "M" and wrap != "MG" and wrap != "G((G)M)" else E]), ("F", [dict(F, nested=True), F, dict(F, nested=True)]), ("0", [dict(E, what=""), dict(F, what=""), dict(F, nested=True, what="")])):
            add("group-%s-%s-bytes" % (wrap, nn), grouped, ["all"], shapes=sh, wrap=wrap, version=V2, n="bytes", part=(0, 1))
            for q in range(16 if T else 2):
                add("group-%s-%s-cut%d" % (wrap, nn, q), grouped, ["all"], shapes=sh, wrap=wrap, version=V2, n=1, part=(q, 16 if T else 2), thin=0 if T else 90, validate=1)
    K2 = [dict(V, what="K"), dict(V, what="KS"), V]
    for nm, what in (("K", "K"), ("X", "X"), ("S", "KS"), ("c", "Kc")):
        for dom in ("txt", "bny"):
            for at in list(range(0, 60 if not T else 400)) + [-1, -2, -3, -4]:
                if at > (8 if nm == "K" else 4) and at % (4 if nm == "K" else 12) and not T:
                    continue
                add("contain-C-%s-%s-%d" % (nm, dom, at), contain, ["others"], shapes=[dict(V, what=what)] + K2[1:], domain=dom, wrap="C", at=at, w=1, validate=2)
    for wrap, sh in (("B", dict(V, nested=True)), ("A", dict(V, nested=True)), ("AV", dict(V, nested=True)), ("BV", dict(V, nested=True)), ("CV", V)):
        for at in list(range(0, 12)) + [-1, -2, -40, -86, -87, -88, -89, -90, -91]:
            add("contain-%s-%d" % (wrap, at), contain, ["others"], shapes=[sh, dict(V, nested=wrap[0] == "A"), V], domain="txt", wrap=wrap, at=at, w=1, validate=2)
    return out


BOUNDS = """Streams of two or three messages in JSON, MGPK, CBOR and native form, under genus version 1, 2 and 2 over version 1 bodies; every kind of attachment messagize makes, alone and all
together, two signatures to a group, in text and binary; messages alone, with attachments, nested in body, generic and nested generic groups, with version codes; empty attachments. Symbolic:
one byte of every primitive, indices, numbers. Pieces: byte by byte, and cut once at every place (thorough; quick: every place near the start and end of bodies and attachments and every
90th). Faults: one arbitrary byte at each of the first 60 places (quick: places 0 to 8 and every fourth or twelfth; thorough 400) and the last four of an attachment group, and at 21 places of body,
generic and versioned groups."""
OUTSIDE = """Faults of several bytes, faults in the counts of the outermost group or outside any group (those may cost the rest of the stream), pathed material and ESSR attachments, pipelined
mode, unenclosed attachments in unframed streams (the library asks for enclosed ones), more than one cut, what processing does with a dispatched message."""
ASSUMPTIONS = ["messages of the streams have fixed bodies; their making is C09's"]
