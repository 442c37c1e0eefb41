"""Real Kramer: one message (query, exchange inception or exchange) delivered several times with varying seals and signatures, symbolic
message date, exchange date, clock at each delivery and at each pruning between them. Oracle: windows and thresholds as configured,
accepted at most once."""
import itertools
from types import SimpleNamespace
from checks.kel import *
from keri.core import kraming
from keri.core.coring import Number, Diger, Prefixer
from keri.core.kraming import Kramer
from keri.core.eventing import query, exchept, exchange
from keri.core.signing import Salter
from keri.core.indexing import Siger
from keri.core.coring import Cigar
from keri.kering import MissingAuthAttachmentError, MissingSenderKeyStateError, KramError

V2 = dict(pvrsn=Vrsn_2_0, kind=Kinds.json)
STAMP = ["2021-01-01T00:00:0%d.000000+00:00" % j for j in range(9)]
WIN = dict(wide=(1000, 5000, 60000, 300000, 5000, 60000, 300000), tight=(10, 20, 20, 20, 20, 20, 20), none=(0, 20, 40, 60, 30, 40, 60))


class Ms:
    def __init__(self, ms):
        self.ms = ms

    def timestamp(self):
        return self

    def __mul__(self, k):
        assert k == 1000
        return self.ms


class Clock:
    def __init__(self):
        self.t = 0
        self.dates = {}
        kraming.helping = SimpleNamespace(fromIso8601=lambda s: Ms(self.t if s == "now" else self.dates[s]), nowIso8601=lambda: "now")


class World:
    def __init__(self, nkeys, caches, denials=(), enabled=True, known=True):
        self.db = open_db()
        self.clock = Clock()
        self.kvy = Kevery(db=self.db, lax=True, local=False)
        allgood()
        self.nkeys = nkeys
        self.base = 0
        self.icp = incept(keys=keys(*range(nkeys)), ndigs=digs(*range(10, 10 + nkeys)), isith="2" if nkeys > 1 else "1", nsith="2" if nkeys > 1 else "1", code=MtrDex.Blake3_256, **JSON)
        self.pre, self.evs = self.icp.pre, []
        if known:
            self.event(self.icp)
        self.cf = SimpleNamespace(get=lambda: dict(kram=dict(enabled=enabled, denials=[list(d) for d in denials], caches={k: list(v) for k, v in caches.items()})))
        self.kr = Kramer(db=self.db, cf=self.cf)

    def event(self, e):
        allgood()
        self.kvy.processEvent(e, sigers=[sig(i) for i in range(self.nkeys)])
        self.evs.append(e)
        return e

    def anchor(self, *seals):
        return self.event(interact(self.pre, self.evs[-1].said, sn=len(self.evs), data=list(seals), **JSON))

    def other(self, m):
        """another identifier that seals the same"""
        allgood()
        i = incept(keys=keys(60), ndigs=digs(61), code=MtrDex.Blake3_256, **JSON)
        e = interact(i.pre, i.said, sn=1, data=[dict(d=m.said)], **JSON)
        for x in (i, e):
            self.kvy.processEvent(x, sigers=[sig(0)])
        self.far = i, e

    def rotate(self):
        self.base += 10
        n = self.nkeys
        return self.event(rotate(self.pre, keys=keys(*range(self.base, self.base + n)), dig=self.evs[-1].said, sn=len(self.evs), ndigs=digs(*range(self.base + 10, self.base + 10 + n)),
                                 isith="2" if n > 1 else "1", nsith="2" if n > 1 else "1", **JSON))

    def est(self):
        return [e for e in self.evs if e.ilk in ("icp", "rot")][-1]


def message(w, kind, xid=None):
    if kind == "qry":
        return query(pre=w.pre, route="logs", query=dict(i=w.pre, src=w.pre), stamp=STAMP[1], **V2)
    if kind == "xip":
        return exchept(sender=w.pre, receiver=nosaid(1), route="/a/b", attributes=dict(a="b"), nonce=Salter(raw=bytes(16)).qb64, stamp=STAMP[1], **V2)
    return exchange(sender=w.pre, receiver=nosaid(1), route="/a/b", xid=xid, attributes=dict(a="b"), stamp=STAMP[2], **V2)


def attach(w, m, seal, sigs):
    """attachments: the event that seals the message, signatures (index, number, form) """
    kwa = {}
    if seal and "far" in seal:       # sealed in the log of another
        kwa["ssts"] = [(Prefixer(qb64=w.far[0].pre), Number(num=w.far[1].sn), Diger(qb64=w.far[1].said))]
        seal = seal.replace("far", "")
    if seal:
        s = {"ok": w.sealed, "bad": w.icp, "gone": None, "other": w.sealed}[seal]
        c = (Number(num=9), Diger(qb64=nosaid(1))) if s is None else (Number(num=s.sn), Diger(qb64=nosaid(2) if seal == "other" else s.said))
        if w.triple:
            kwa.setdefault("ssts", []).append((Prefixer(qb64=w.pre), *c))
        else:
            kwa["sscs"] = [c]
    for idx, n, form in sigs:
        s = sig(idx, n=n)
        if form == "bare":
            kwa.setdefault("sigers", []).append(s)
        elif form == "lsg":
            kwa.setdefault("lsgs", []).append((Prefixer(qb64=w.pre), [s]))
        elif form == "tsg":
            e = w.est()
            kwa.setdefault("tsgs", []).append((Prefixer(qb64=w.pre), Number(num=e.sn), Diger(qb64=e.said), [s]))
        elif form == "old":
            kwa.setdefault("tsgs", []).append((Prefixer(qb64=w.pre), Number(num=0), Diger(qb64=w.icp.said), [s]))
        elif form == "them":
            kwa.setdefault("lsgs", []).append((Prefixer(qb64=nosaid(3)), [s]))
        elif form == "cig":
            kwa.setdefault("cigars", []).append(Cigar(raw=s.raw, verfer=Verfer(qb64=w.est().ked["k"][idx])))
    return kwa


PLANS = {"f": ("far", ()), "sf": ("badfar", ()), "f0": ("far", ((0, 0),)), "f01": ("far", ((0, 0), (1, 0))), "sf0": ("badfar", ((0, 0),)), "sf01": ("badfar", ((0, 0), (1, 0))), "sf1": ("badfar", ((1, 0),)),
         "S": ("ok", ()), "s": ("bad", ()), "g": ("gone", ()), "o": ("other", ()), "0": (None, ((0, 0),)), "1": (None, ((1, 0),)), "0'": (None, ((0, 1),)),
         "01": (None, ((0, 0), (1, 0))), "S0": ("ok", ((0, 0),)), "S01": ("ok", ((0, 0), (1, 0))), "s01": ("bad", ((0, 0), (1, 0))), "s0": ("bad", ((0, 0),)), "g01": ("gone", ((0, 0), (1, 0))), "012": (None, ((0, 0), (1, 0), (2, 0)))}


def replays(ctx, nkeys, kind, win, plans, form="lsg", between=(), triple=False):
    """deliveries of one message; between[j]: what the sender does before delivery j (ixn, rot)"""
    win = WIN[win]
    w = World(nkeys, {"~": win})
    d, sl, ll, xl, psl, pll, pxl = win
    w.triple = triple
    HI = 4 * (d + max(ll, xl))
    mdt = ctx.integer("mdt", 0, HI)
    w.clock.dates[STAMP[1]] = mdt
    xdt = mdt if kind == "xip" else None
    now = ctx.integer("t0", 0, HI)
    m = message(w, "xip" if kind == "exn" else kind)
    if kind == "exn":
        w.clock.dates[STAMP[1]] = xdt = mdt
        w.clock.t = now
        allgood()
        x = m
        w.sealed = w.anchor(dict(d=m.said))
        w.clock.t = xdt
        ctx.check(w.kr.kramit(m, attach(w, m, "ok", ())) is not None, "exchange inception in time and sealed")
        mdt = ctx.integer("edt", 0, HI)
        w.clock.dates[STAMP[2]] = mdt
        m = message(w, "exn", xid=x.said)
        ctx.assume(now >= xdt)
    # a seal of the message in the sender's log
    w.sealed = w.anchor(dict(i=nosaid(4), s="0", d=nosaid(5)), dict(d=m.said))
    if any("f" in p for p in plans):
        w.other(m)
    verdict = {}
    accepted = seen = False
    union, changed = {}, False          # index: verdict of any of its signatures
    pruned = False
    for j, p in enumerate(plans):
        if j:
            t = ctx.integer("t%d" % j, 0, HI)
            ctx.assume(t >= now)
            if ctx.boolean("prune %d" % j):
                pt = ctx.integer("p%d" % j, 0, HI)
                ctx.assume((pt >= now) & (pt <= t))
                w.kr._pruneMessages(pt)
                w.kr._pruneExchanges(pt)
                pruned = True
            now = t
        b = between[j] if j < len(between) else ""
        if b:
            w.anchor() if b == "ixn" else w.rotate()
            changed = True
            if b == "rot":
                union = {}
        seal, sigs = PLANS[p]
        sigs = [(i, (n + 1) * 16 + i + w.base * 4, form if form != "mix" else ("lsg", "bare", "tsg")[i]) for i, n in sigs]
        for i, n, _ in sigs:
            if (i, n) not in verdict:
                verdict[i, n] = ctx.boolean("good %d %d" % (i, n))
        vk = [bytes(Verfer(qb64=k).raw) for k in w.est().ked["k"]]
        old = [bytes(Verfer(qb64=k).raw) for k in w.icp.ked["k"]]

        def f(k, msg, s):
            if bytes(msg) != bytes(m.raw):
                return False
            for (i, n), v in verdict.items():
                if bytes(s)[0] == n and bytes(k) == (old if form == "old" else vk)[i]:
                    return v
            return False
        ideal.ORACLE = f
        w.clock.t = now
        kwa = attach(w, m, seal, sigs)
        try:
            res = w.kr.kramit(m, kwa)
        except MissingSenderKeyStateError:
            res = None
            ctx.check(seal == "gone", "key state missing")
        except MissingAuthAttachmentError:
            res = None
            ctx.check(seal == "far" and not sigs or not seal and form in ("them", "cig"), "attachments missing")
        counts = form not in ("them", "cig") and not (form == "old" and w.base)
        good = {i: verdict[i, n] for i, n, _ in sigs} if counts else {}
        multi = nkeys > 1
        for i, v in good.items():
            union[i] = union.get(i, False) | v
        full = seal == "ok"
        if not multi:
            full = full | good.get(0, False)
            some = full
            enough = full
        else:
            full = full | (sum(v * 1 for v in good.values()) >= 2 if good else False)
            some = (seal == "ok")
            for v in good.values():
                some = some | v
            enough = (seal == "ok") | (sum(v * 1 for v in union.values()) >= 2 if union else False)
        lag = sl if not multi or seal == "ok" or not sigs else ll
        inwin = (mdt >= now - d - lag) & (mdt <= now + d)
        if kind == "exn":
            inwin = inwin & (mdt >= xdt) & (mdt <= xdt + xl)
        if res is not None:
            ctx.check(res is m, "another message")
            ctx.check(accepted == False, "message accepted again", lambda: (now, mdt))
            ctx.check(enough, "message accepted without authentication", lambda: (verdict, p))
            ctx.check(inwin | seen, "message accepted outside its window", lambda: (now, mdt))
            if multi and seal != "ok":
                ctx.check(len(kwa["sigers"]) >= 2, "signatures handed on")
                for s in kwa["sigers"]:
                    ctx.check(union[s.index], "signature handed on does not verify")
            accepted = True
            ctx.reach("accepted")
        else:
            first = (not seen) & inwin if kind != "exn" or not pruned else False
            # nothing of it seen before: has to be taken
            ctx.check(((first == False) | (full == False)), "valid message in time refused", lambda: (now, mdt, p))
            if j and seen is True and not pruned and not changed and not seal and not accepted:
                ctx.check(enough == False, "message with enough signatures refused", lambda: (verdict, p))
            ctx.reach("refused")
        seen = seen | (inwin & some)
        if seen is not True and seen is not False and bool(seen):
            seen = True


def select(ctx, ilk, have):
    """windows are those of the most specific type: route, kind of message, any"""
    caches = {k: (0, 10 * (j + 1), 10 * (j + 1), 10 * (j + 1), 99, 99, 99) for j, k in enumerate(have)}
    w = World(1, caches)
    w.triple = False
    m = message(w, ilk)
    w.sealed = w.anchor(dict(d=m.said))
    route = {"qry": "logs", "xip": "/a/b"}[ilk]
    best = next((k for k in (ilk + ".R." + route, ilk, "~") if k in caches), None)
    mdt = w.clock.dates[STAMP[1]] = ctx.integer("mdt", 0, 200)
    w.clock.t = ctx.integer("now", 0, 200)
    try:
        res = w.kr.kramit(m, attach(w, m, "ok", ()))
    except KramError:
        ctx.check(best is None, "cache type of the message missing")
        ctx.reach("none")
        return
    ctx.check(best is not None, "window out of nowhere")
    lag = caches[best][1]
    ctx.check((res is not None) == ((mdt <= w.clock.t) & (mdt >= w.clock.t - lag)), "window is not that of the most specific type", lambda: best)
    c = w.db.kramMSGC.get((w.pre, m.said)) if ilk == "qry" else w.db.kramTMSC.get((w.pre, m.said, m.said))
    ctx.check((c is not None) == (res is not None), "accepted is remembered")
    ctx.reach("taken")


def bypass(ctx, enabled, denials, passes):
    """what is denied, or everything when not enabled, goes by; what has no attachments or an unknown sender does not"""
    w = World(1, {"~": WIN["wide"]}, denials=denials, enabled=enabled, known=False)
    w.triple = False
    m = message(w, "qry")
    w.sealed = w.icp
    w.clock.dates[STAMP[1]] = ctx.integer("mdt", 0, 10)
    w.clock.t = ctx.integer("now", 0, 10)
    how = ctx.choose("attached", ["none", "seal", "sig"])
    kwa = {} if how == "none" else attach(w, m, "bad" if how == "seal" else None, [(0, 1, "lsg")] if how == "sig" else [])
    try:
        res = w.kr.intake(m, kwa)
        ctx.check(passes and res is m, "message without known sender taken")
    except MissingAuthAttachmentError:
        ctx.check(not passes and how == "none", "attachments missing")
    except MissingSenderKeyStateError:
        ctx.check(not passes and how != "none", "sender missing")
        ctx.check([c["kin"] for c in w.kr.cues] == ["keystate"] and w.kr.cues[0]["aid"] == w.pre, "key state of the sender is asked for")
    ctx.check(w.db.kramMSGC.get((w.pre, m.said)) is None, "remembered though not taken")
    ctx.reach("same")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=expect, weight=weight))
    for kind in ("qry", "xip", "exn"):
        for nkeys in (1, 3):
            pl = ["S", "s", "g", "o", "0", "0'", "S0", "s0"] if nkeys == 1 else ["S", "s", "0", "1", "0'", "01", "S01", "s01", "g01", "S0", "012"]
            for win in ("wide", "tight", "none"):
                for a in pl:
                    if not T and kind != "qry" and win != "tight" and (nkeys == 3 or win == "wide"):
                        continue
                    for b in pl if T or (win == "tight" and kind == "qry" and nkeys == 1) else pl[::3 if kind == "qry" else 5]:
                        for c in (pl if T else ["01", "S"] if (a, b) in (("0", "1"), ("0", "01"), ("S01", "01")) else []) + [None]:
                            add("%s-%d-%s-%s.%s.%s" % (kind, nkeys, win, a, b, c or ""), replays, [], nkeys=nkeys, kind=kind, win=win, plans=[a, b] + [c] * bool(c), weight=4 if c else 2)
    for form in ("bare", "tsg", "old", "them", "cig", "mix"):
        for nkeys in (1, 3):
            for pl in (["0", "0"], ["01", "0"], ["0", "1"]) if nkeys > 1 else (["0", "0"],):
                for b in ((), ("", "rot"), ("", "ixn"), ("ixn",), ("rot",)):
                    add("form-%s-%d-%s-%s" % (form, nkeys, ".".join(pl), ".".join(b)), replays, [], nkeys=nkeys, kind="qry", win="wide", plans=pl, form=form, between=b)
    for b in (("", "rot"), ("", "ixn"), ("", "", "rot"), ("rot",)):
        for pl in (["0", "1", "01"], ["0", "01", "01"], ["01", "01"], ["S", "01"]):
            add("changed-%s-%s" % (".".join(b), ".".join(pl)), replays, [], nkeys=3, kind="qry", win="wide", plans=pl, between=b, weight=3)
    for pl in (["S", "S"], ["s", "S"], ["o", "S0"]):
        add("triple-%s" % ".".join(pl), replays, [], nkeys=1, kind="qry", win="tight", plans=pl, triple=True)
    for pl in (["f", "S"], ["sf", "f"], ["f0", "sf"], ["sf0", "0"]):
        for t in (False, True):
            add("far-1-%s-%d" % (".".join(pl), t), replays, [], nkeys=1, kind="qry", win="tight", plans=pl, triple=t)
    for pl in (["f", "f01"], ["sf", "sf01"], ["sf0", "sf1"], ["sf", "01"]):
        for t in (False, True):
            add("far-3-%s-%d" % (".".join(pl), t), replays, [], nkeys=3, kind="qry", win="tight", plans=pl, triple=t)
    for ilk, route in (("qry", "logs"), ("xip", "/a/b")):
        names = [ilk + ".R." + route, ilk, "~", ilk + ".R." + route + "x", "rpy"]
        for r in range(0, 4):
            for have in itertools.permutations(names, r) if T else itertools.combinations(names, r):
                add("select-%s-%s" % (ilk, "+".join(have)), select, ["taken"] if set(have) & set(names[:3]) else ["none"], ilk=ilk, have=have)
    for n, den, p in (("none", (), False), ("all", (((2, 0), "", ""),), True), ("kind", (((2, 0), "qry", ""),), True), ("route", (((2, 0), "qry", "logs"),), True),
                      ("other", (((2, 0), "rpy", ""),), False), ("otherroute", (((2, 0), "qry", "ksn"),), False), ("v1", (((1, 0), "qry", ""),), False)):
        for en in (True, False):
            add("bypass-%s-%s" % (n, en), bypass, ["same"], enabled=en, denials=den, passes=p or not en)
    return out


BOUNDS = """One message (query, exchange inception, exchange under a sealed inception) of a sender of 1 key, or 3 keys with threshold 2; delivered twice (quick; three times for
the accumulating sequences, thorough: all sequences of 2 and 3 of the 8 or 11 attachment plans: valid, foreign, unknown and mismatching seals, signatures of every subset of the
keys, two signatures of one key, seals with signatures, seals in another's log; bare, endorsed with the last or an older establishment event, endorsed by another, unindexed), with or without another
event or a rotation of the sender's between. Symbolic: date of the message and of the exchange, clock at each delivery, whether and when the cache is pruned between (whole ms,
0 to four times the widest window), which signatures verify. Three window configurations; selection of the window among every subset of 3 of 5 configured types (thorough: every
order)."""
OUTSIDE = """Changes of the configuration at run time (changeConfig, reconcileConfig), fractions of ms, clocks that run backwards, other message types (reply, prod, bare) and
their attachments, rehydration of non-authenticating attachments of a message accepted late, more than two accumulating deliveries in quick."""
ASSUMPTIONS = ["signature verification is a free predicate of (key, message, signature)", "the clock and ISO dates are replaced by whole ms", "stores are the in-memory LMDB stand-in"]
