"""Real Kevery.processReceipt, processAttachedReceiptCouples, processAttachedReceiptSigGroups and the receipt escrow passes
on logs of real events; which key made each signature, over which event, and the position it states are symbolic.
Oracle: the witness list in force at the event's number and the keys of the receipter's establishment event."""
from checks.kel import *
from checks.C15 import Log, W
from keri.core.coring import Cigar, Number, Diger, Prefixer, Dater
from keri.kering import ValidationError, UnverifiedReceiptError, MissingWitnessSignatureError, OutOfOrderError


def cig(v, n):
    return Cigar(raw=bytes([n] * 64), code=MtrDex.Ed25519_Sig, verfer=v)


class Receipter:
    """a transferable receipter with two establishment events and an interaction, keys 30.. """

    def __init__(self, kvy, upto=2):
        allgood()
        a = incept(keys=keys(30, 31), isith="1", ndigs=digs(32), nsith="1", code=MtrDex.Blake3_256, **JSON)
        b = rotate(a.pre, keys(32, 33), a.said, sn=1, isith="1", ndigs=digs(34), nsith="1", **JSON)
        c = interact(a.pre, b.said, sn=2, **JSON)
        self.pre, self.evs, self.keys = a.pre, [a, b, c], [(30, 31), (32, 33), ()]
        self.kvy, self.n = kvy, 0
        self.give(upto)

    def give(self, upto):
        for e in self.evs[self.n:upto + 1]:
            self.kvy.processEvent(e, [sig(0, n=90)])
        self.n = max(self.n, upto + 1)


def oracle(made, raw):
    """signature n (50..) was made by key number made[n] over raw"""
    def f(vk, msg, s):
        n, v = bytes(s)[0], bytes(vk)[0] - 1
        if n >= 90:
            return True
        if bytes(msg) != bytes(raw):
            return False
        return made[n] == v
    ideal.ORACLE = f


def stored(c, said):
    w = sorted((bytes(s.raw)[0], s.index) for s in c.db.wigs.get(keys=(c.pre, said)) if bytes(s.raw)[0] < 90)
    r = sorted((bytes(g.raw)[0], v.qb64) for v, g in c.db.rcts.get(keys=(c.pre, said)))
    t = sorted((bytes(s.raw)[0], s.index, k[2], int(k[3], 16), k[4]) for k, s in c.db.vrcs.getTopItemIter(keys=(c.pre, said, "")))
    return w, r, t


def attachments(ctx, what, c, rc, ww):
    """(cigars, wigers, tsgs), who made what, and what should be stored when all is known: lists of (cond, entry)"""
    cigars, wigers, tsgs, made, want = [], [], [], {}, ([], [], [])
    strict = False        # whether some signature may make the whole message refused
    if what in ("cigar", "mix"):
        for j, v in enumerate([ctx.choose("rec", [100, 101, 102, 110])] + ([110] if what == "cigar" else [])):
            n = 50 + j
            made[n] = ctx.integer("made%d" % n, 99, 112)
            vf = key(v, trans=False)
            cigars.append(cig(vf, n))
            if v - 100 in ww:
                want[0].append((made[n] == v, (n, ww.index(v - 100))))
            else:
                want[1].append((made[n] == v, (n, vf.qb64)))
    if what == "transcigar":    # a couple claiming a transferable key never counts
        made[50] = ctx.integer("made50", 0, 3)
        cigars.append(cig(key(0), 50))
    if what in ("wiger", "mix"):
        for j in range(2 if what == "wiger" else 1):
            n = 60 + j
            made[n], i = ctx.integer("made%d" % n, 99, 105), ctx.integer("at%d" % n, 0, 3)
            wigers.append(sig(i, n=n))
            for p, w in enumerate(ww):
                want[0].append(((i == p) & (made[n] == w + 100), (n, p)))
    if what in ("trans", "mix"):
        sn = ctx.choose("rsn", [0, 1, 2]) if what == "trans" else 1
        right = ctx.boolean("rdig") if what == "trans" else True
        ss = []
        for j in range(2 if what == "trans" else 1):
            n = 70 + j
            made[n], i = ctx.integer("made%d" % n, 29, 34), ctx.integer("at%d" % n, 0, 2)
            ss.append(sig(i, n=n))
            for p, k in enumerate(rc.keys[sn]):
                if right:
                    want[2].append(((i == p) & (made[n] == k), (n, p, rc.pre, sn, rc.evs[sn].said)))
            if not right or not rc.keys[sn] or bool(i >= len(rc.keys[sn])):
                strict = True
        tsgs.append((Prefixer(qb64=rc.pre), Number(num=sn), Diger(qb64=rc.evs[sn].said if right else nosaid(2)), ss))
    return cigars, wigers, tsgs, made, want, strict


def settled(ctx, c, said, want, subset=False, none=False):
    for have, exp, what in zip(stored(c, said), want, ("witness signature", "couple", "transferable signature")):
        tot = 0
        for cond, entry in exp:
            there = any(h == entry for h in have)
            if subset:
                ctx.check(cond | (not there), "stored %s that does not verify" % what)
            else:
                ctx.check((cond if not none else False) == there, "%s stored exactly when it verifies" % what, lambda: (have, entry))
            tot = tot + there
        ctx.check(len(have) == tot, "some other %s stored" % what, lambda: have)


def arrives(ctx, hist, at, what, via="rct"):
    """receipt of an event in force, all logs known"""
    c = Log(hist)
    rc = Receipter(c.kvy)
    e = c.cur[at]
    cigars, wigers, tsgs, made, want, strict = attachments(ctx, what, c, rc, list(c.inforce[at][1]))
    oracle(made, e.raw)
    before = c.record()
    err = None
    try:
        if via == "rct":
            c.kvy.processReceipt(eventing.receipt(c.pre, at, e.said, **JSON), cigars=cigars, wigers=wigers, tsgs=tsgs, rsgs=[])
        elif via == "rct2":
            c.kvy.processReceipt(eventing.receipt(c.pre, at, e.said, **JSON), cigars=cigars, wigers=wigers, tsgs=[], rsgs=tsgs)
        else:
            if cigars:
                c.kvy.processAttachedReceiptCouples(e, cigars)
            if tsgs:
                c.kvy.processAttachedReceiptSigGroups(e, tsgs)
    except ValidationError as ex:
        err = ex
        bad = strict
        if via == "att":
            for n, m in made.items():
                if n >= 70:
                    fine = False
                    for cond, en in want[2]:
                        if en[0] == n:
                            fine = fine | cond
                    bad = bad | (fine == False)
        ctx.check(bad, "receipt of good signatures refused", lambda: repr(ex)[:100])
        ctx.reach("refused")
    settled(ctx, c, e.said, want, subset=err is not None)
    for o in c.cur + c.old:
        if o.said != e.said:
            ctx.check(stored(c, o.said) == ([], [], []), "receipt stored with another event")
    ctx.check(c.record() == before, "receipt changed the record")
    if err is None:
        ctx.reach("stored")


def wrongevent(ctx, hist, at, which):
    """receipt naming another event at a number taken: superseded, never seen, or only kept as a rival"""
    c = Log(hist)
    rc = Receipter(c.kvy)
    if which == "superseded":
        e = [o for o in c.old if o.sn == at][0]
    else:
        e = interact(c.pre, c.cur[at - 1].said, sn=at, data=[dict(d=nosaid(8))], **JSON)
        if which == "rival":
            try:
                c.kvy.processEvent(e, [sig(0, n=90)])
            except ValidationError:
                pass
    good = ctx.boolean("good")
    ideal.ORACLE = lambda vk, msg, s: good
    what = ctx.choose("what", ["cigar", "wiger", "trans"])
    kw = dict(cigars=[], wigers=[], tsgs=[], rsgs=[])
    if what == "cigar":
        kw["cigars"] = [cig(key(101, trans=False), 50)]
    elif what == "wiger":
        kw["wigers"] = [sig(1, n=60)]
    else:
        kw["tsgs"] = [(Prefixer(qb64=rc.pre), Number(num=1), Diger(qb64=rc.evs[1].said), [sig(0, n=70)])]
    before = c.record()
    refused = False
    try:
        c.kvy.processReceipt(eventing.receipt(c.pre, at, e.said, **JSON), **kw)
    except ValidationError as ex:
        refused = True
    ctx.check(refused, "receipt of an event not in force taken")
    c.kvy.processEscrows()
    ctx.check(stored(c, c.cur[at].said) == ([], [], []), "receipt of another event stored with the event in force")
    ctx.check(stored(c, e.said) == ([], [], []), "receipt stored with an event not in force")
    ctx.check(c.record() == before, "receipt changed the record")
    ctx.reach("refused")


def early(ctx, hist, what, late, ahead, via="rct"):
    """receipt of the next event before it (late="event"), or before the receipter's establishment event (late="receipter");
    ahead: further events of the log before the next pass over what is kept"""
    c = Log(hist)
    rc = Receipter(c.kvy, upto=2 if late == "event" else -1)
    n = len(c.cur)
    e = interact(c.pre, c.cur[-1].said, sn=n, data=[dict(d=nosaid(3))], **JSON)
    ww = list(c.inforce[-1][1])
    cigars, wigers, tsgs, made, want, strict = attachments(ctx, what, c, rc, ww)
    if late == "receipter":
        c.give(e)
    oracle(made, e.raw)
    kept = False
    try:
        if via == "rct":
            c.kvy.processReceipt(eventing.receipt(c.pre, n, e.said, **JSON), cigars=cigars, wigers=wigers, tsgs=tsgs, rsgs=[])
        elif via == "rct2":
            c.kvy.processReceipt(eventing.receipt(c.pre, n, e.said, **JSON), cigars=cigars, wigers=wigers, tsgs=[], rsgs=tsgs)
        else:
            c.kvy.processAttachedReceiptSigGroups(e, tsgs)
    except ValidationError:
        kept = True
    ctx.check(kept, "receipt that cannot be verified yet taken")
    if late == "event":
        ctx.check(stored(c, e.said) == ([], [], []), "receipt stored without its event")
        c.kvy.processEscrows()
        ctx.check(stored(c, e.said) == ([], [], []), "receipt stored without its event by a pass")
        c.give(e)
    else:
        ctx.check(stored(c, e.said)[2] == [], "receipt stored without its receipter's keys")
        c.kvy.processEscrows()
        ctx.check(stored(c, e.said)[2] == [], "receipt stored without its receipter's keys by a pass")
        rc.give(2)
    if ahead:        # the witnesses change before the next pass
        k = c.k + 2
        r = rotate(c.pre, keys(k, k + 1), c.cur[-1].said, sn=len(c.cur), isith="1", ndigs=digs(k + 2), nsith="1", wits=W(c.wits),
                   cuts=W(c.wits[:1]), adds=W([c.wits[-1] + 1]), toad=1, **JSON)
        c.k, c.wits = k, c.wits[1:] + [c.wits[-1] + 1]
        c.give(r)
    c.kvy.processEscrows()
    settled(ctx, c, e.said, want)
    c.kvy.processEscrows()
    settled(ctx, c, e.said, want)
    for db in (c.db.ures, c.db.uwes, c.db.vres):
        ctx.check(list(db.getTopItemIter()) == [], "receipt kept after it was decided")
    ctx.reach("stored")


def completes(ctx, hist, ilk, what):
    """an event short of witness signatures is accepted once receipts bring them"""
    c = Log(hist)
    n = len(c.cur)
    ww = list(c.wits)
    at = n
    if ilk == "ixn":
        # raise the threshold first
        k = c.k + 2
        r = rotate(c.pre, keys(k, k + 1), c.cur[-1].said, sn=n, isith="1", ndigs=digs(k + 2, k + 3), nsith="1", wits=W(ww), toad=2, **JSON)
        c.k = k
        c.kvy.processEvent(r, [sig(0, n=90)], wigers=[sig(0, n=91), sig(1, n=92)])
        c.cur.append(r)
        e = interact(c.pre, r.said, sn=n + 1, **JSON)
    else:
        at = n - 1 if ilk == "rec" else n
        k = c.k + 2
        cuts, adds = ([ww[0]], [ww[-1] + 1])
        e = rotate(c.pre, keys(k, k + 1), c.cur[at - 1].said, sn=at, isith="1", ndigs=digs(k + 2, k + 3), nsith="1", wits=W(ww), cuts=W(cuts),
                   adds=W(adds), toad=2, **JSON)
        ww = ww[1:] + adds
    before = c.record()
    try:
        c.kvy.processEvent(e, [sig(0, n=90)], wigers=[sig(0, n=91)])
        ctx.check(False, "event accepted short of witnesses")
    except MissingWitnessSignatureError:
        pass
    made, i = ctx.integer("made", 99, 106), None
    kw = dict(cigars=[], wigers=[], tsgs=[], rsgs=[])
    if what == "cigar":
        v = ctx.choose("rec", [ww[0], ww[1], 9])
        kw["cigars"] = [cig(key(100 + v, trans=False), 50)]
        ok = (made == v + 100) & (v == ww[1])
    else:
        i = ctx.integer("at", 0, 3)
        kw["wigers"] = [sig(i, n=50)]
        ok = (i == 1) & (made == ww[1] + 100)
    oracle({50: made}, e.raw)
    try:
        c.kvy.processReceipt(eventing.receipt(c.pre, e.sn, e.said, **JSON), **kw)
    except ValidationError as ex:
        pass
    c.kvy.processEscrows()
    rec = c.record()
    ctx.check(ok == (rec[1] == before[1] + [e.said]), "event accepted exactly when receipts bring the missing witness", lambda: (rec[1], before[1]))
    if rec[1] == before[1]:
        ctx.check(rec == before, "pending event changed the record")
        ctx.check([d for _, o, d in c.db.pwes.getAllItemIter(keys=c.pre)] == [e.said], "pending event forgotten")
        ctx.reach("pending")
    else:
        ctx.check(rec[2]["d"] == e.said and rec[3]["d"] == e.said, "key state after completion")
        ctx.check(list(c.db.pwes.getAllItemIter(keys=c.pre)) == [], "accepted event still pending")
        ctx.reach("accepted")


def own(ctx, whose, what, lax, local):
    """receipts in the name of an own identifier"""
    c = Log("x", lax=lax)
    rc = Receipter(c.kvy, upto=1)
    e = c.cur[1]
    mine = dict(cigar=wit(1), nonwit=wit(9), wiger=wit(1), trans=rc.pre)[what]
    c.db.prefixes.add(mine)
    if whose == "own":
        c.db.prefixes.add(c.pre)
    good = ctx.boolean("good")
    ideal.ORACLE = lambda vk, msg, s: good
    kw = dict(cigars=[], wigers=[], tsgs=[], rsgs=[])
    if what in ("cigar", "nonwit"):
        kw["cigars"] = [cig(key(101 if what == "cigar" else 109, trans=False), 50)]
    elif what == "wiger":
        kw["wigers"] = [sig(1, n=60)]
    else:
        kw["tsgs"] = [(Prefixer(qb64=rc.pre), Number(num=1), Diger(qb64=rc.evs[1].said), [sig(0, n=70)])]
    try:
        c.kvy.processReceipt(eventing.receipt(c.pre, 1, e.said, **JSON), local=local, **kw)
    except ValidationError:
        pass
    allowed = lax or (local and whose != "own")
    have = stored(c, e.said)
    ctx.check((good if allowed else False) == (have != ([], [], [])), "receipt in an own name stored exactly when allowed and good")
    if have != ([], [], []):
        ctx.reach("stored")
    else:
        ctx.reach("not")


def cases(tier):
    T = tier == "thorough"
    out = []
    for h, ats in [("", [0]), ("x", [0, 1]), ("xw", [0, 1, 2]), ("wx", [0, 2]), ("xx1x", [1, 2]), ("wxw", [0, 2, 3])] + ([("rxx3", [1, 3]), ("wwx", [0, 1, 2, 3])] if T else []):
        for at in ats:
            for what in ("cigar", "wiger", "trans", "transcigar", "mix"):
                if what in ("transcigar", "mix") and h not in ("x", "xw") and not T:
                    continue
                if what == "trans" and h in ("wx", "") and not T:
                    continue
                for via in ("rct", "rct2", "att"):
                    if via == "rct2" and what != "trans" or via == "att" and what in ("wiger", "mix"):
                        continue
                    out.append(dict(name="arrives-%s-%d-%s-%s" % (h or "0", at, what, via), fn=arrives, params=dict(hist=h, at=at, what=what, via=via),
                                    weight=3, expect=["stored"] + (["refused"] if what == "trans" else [])))
    for h, at, w in [("xx1", 1, "superseded"), ("xx1x", 2, "superseded"), ("x", 1, "unseen"), ("x", 1, "rival"), ("xw", 2, "unseen"), ("xw", 1, "rival")]:
        out.append(dict(name="wrong-%s-%d-%s" % (h, at, w), fn=wrongevent, params=dict(hist=h, at=at, which=w), expect=["refused"]))
    for h in ["", "w"] + (["x", "xx1"] if T else []):
        for ahead in (False, True):
            for what in ("cigar", "wiger", "trans", "mix"):
                for via in ("rct", "rct2", "att"):
                    if via != "rct" and what != "trans":
                        continue
                    out.append(dict(name="early-%s-%s-%s%s" % (h or "0", what, via, "-ahead" if ahead else ""), fn=early,
                                    params=dict(hist=h, what=what, late="event", ahead=ahead, via=via), weight=4, expect=["stored"]))
            for what in ("trans", "mix"):
                out.append(dict(name="unknown-%s-%s%s" % (h or "0", what, "-ahead" if ahead else ""), fn=early,
                                params=dict(hist=h, what=what, late="receipter", ahead=ahead), weight=4, expect=["stored"]))
    for h, ilk in [("", "ixn"), ("x", "ixn"), ("", "rot"), ("w", "rot"), ("x", "rec"), ("wx", "rec")]:
        for what in ("cigar", "wiger"):
            out.append(dict(name="completes-%s-%s-%s" % (h or "0", ilk, what), fn=completes, params=dict(hist=h, ilk=ilk, what=what), expect=["pending", "accepted"]))
    for whose in ("own", "other"):
        for what in ("cigar", "nonwit", "wiger", "trans"):
            for lax, local in ((True, False), (False, True), (False, False)):
                ok = lax or (local and whose != "own")
                out.append(dict(name="own-%s-%s-%d%d" % (whose, what, lax, local), fn=own, params=dict(whose=whose, what=what, lax=lax, local=local),
                                expect=["not"] + (["stored"] if ok else [])))
    return out


BOUNDS = "logs of up to 5 events with rotations, witness changes and recoveries, two witnesses; receipts of every event with one to three signatures of one to three kinds, each made by any key and stating any position; receipts before the event, before the receipter's keys, and for a pending event"
OUTSIDE = "more signatures per receipt; expiry of kept receipts; several passes racing"
ASSUMPTIONS = ["signature scheme idealised: which key made a signature is arbitrary"]
