"""Real Kevery.processEvent on logs of real events with two keys and two witnesses; an event of the log or a rival of one
is presented (again) with signatures whose stated position and maker are symbolic.  Oracle: the keys and witnesses in
force at the event's number, tracked here."""
from checks.kel import *
from keri.kering import ValidationError, LikelyDuplicitousError

W = lambda ii: [wit(i) for i in ii]


class Log:
    """a witnessed two key log; hist letters: x interaction, r rotation, w rotation changing witnesses, digit recovery at that number"""

    def __init__(self, hist, lax=True, delpre=None):
        self.db = open_db()
        self.kvy = Kevery(db=self.db, lax=lax, local=False)
        allgood()
        self.k = 0
        self.wits = [0, 1]
        s = incept(keys=keys(0, 1), isith="1", ndigs=digs(2, 3), nsith="1", wits=W([0, 1]), toad=1, code=MtrDex.Blake3_256, **JSON)
        self.pre = s.pre
        self.cur, self.old, self.inforce = [], [], []   # events in force, superseded, (keys, witnesses) per number
        self.give(s)
        for h in hist:
            n = len(self.cur)
            if h == "x":
                self.give(interact(self.pre, self.cur[-1].said, sn=n, data=[dict(d=nosaid(len(self.old)))], **JSON))
            else:
                at = int(h) if h.isdigit() else n
                cuts, adds = ([self.wits[0]], [self.wits[-1] + 1]) if h == "w" else ([], [])
                k = self.k + 2
                e = rotate(self.pre, keys(k, k + 1), self.cur[at - 1].said, sn=at, isith="1", ndigs=digs(k + 2, k + 3), nsith="1",
                           wits=W(self.wits), cuts=W(cuts), adds=W(adds), toad=1, **JSON)
                self.k = k
                self.wits = [w for w in self.wits if w not in cuts] + adds
                self.give(e)

    def give(self, e):
        self.kvy.processEvent(e, [sig(0, n=90)], wigers=[sig(0, n=91)])
        self.old += self.cur[e.sn:]
        del self.cur[e.sn:]
        del self.inforce[e.sn:]
        self.cur.append(e)
        self.inforce.append(((self.k, self.k + 1), tuple(self.wits)))

    def record(self):
        return kel(self.db, self.pre), fel(self.db, self.pre), drec(self.db.states.get(keys=self.pre)), kstate(self.kvy.kevers[self.pre])

    def sigs(self, said):
        return self.db.sigs.get(keys=(self.pre, said)), self.db.wigs.get(keys=(self.pre, said))


def makers(ctx, ns, nw, K):
    """signatures number 50.. by controllers, 60.. by witnesses: stated index and maker symbolic"""
    idx = [ctx.integer("i%d" % j, 0, 3) for j in range(ns)]
    own = [ctx.integer("o%d" % j, 0, K) for j in range(ns)]
    widx = [ctx.integer("wi%d" % j, 0, 3) for j in range(nw)]
    wown = [ctx.integer("wo%d" % j, 0, 5) for j in range(nw)]

    def f(vk, msg, s):
        n, v = bytes(s)[0], bytes(vk)[0] - 1
        if n >= 90:
            return True
        return own[n - 50] == v if n < 60 else wown[n - 60] == v - 100
    ideal.ORACLE = f
    return ([sig(idx[j], n=50 + j) for j in range(ns)], [sig(widx[j], n=60 + j) for j in range(nw)], list(zip(idx, own)), list(zip(widx, wown)))


def extra(ctx, had, have, base, made, signers, what):
    """signature j is kept exactly when its maker is the signer at the position it states"""
    h = [(s.index, bytes(s.raw)[0]) for s in have]
    for i, n in [(s.index, bytes(s.raw)[0]) for s in had]:
        ctx.check(any((a == i) & (m == n) for a, m in h), what + " signature lost")
    tot = len(had)
    for j, (i, o) in enumerate(made):
        ok = False
        for p, k in enumerate(signers):
            ok = ok | ((i == p) & (o == k))
        at = [a for a, m in h if m == base + j]
        ctx.check(ok == (len(at) == 1), what + " signature kept exactly when it verifies", lambda: (j, at))
        if at:
            ctx.check(at[0] == i, what + " signature kept under another position")
        tot = tot + ok
    ctx.check(len(h) == tot, what + " signatures kept")


def again(ctx, hist, at, ns, nw):
    """an accepted event once more"""
    c = Log(hist)
    e = c.cur[at]
    kk, ww = c.inforce[at]
    sigers, wigers, made, wmade = makers(ctx, ns, nw, c.k + 2)
    before, had = c.record(), c.sigs(e.said)
    try:
        c.kvy.processEvent(e, sigers, wigers=wigers)
    except (ValidationError, ValueError) as ex:
        ctx.check(False, "accepted event refused when it comes again", lambda: repr(ex)[:100])
        return
    ctx.check(c.record() == before, "accepted event coming again changed the record")
    have = c.sigs(e.said)
    extra(ctx, had[0], have[0], 50, made, kk, "controller")
    extra(ctx, had[1], have[1], 60, wmade, ww, "witness")
    ctx.check(c.db.ldes.getLast(keys=c.pre, on=at) is None, "accepted event kept as duplicitous")
    ctx.reach("again")


def rival(ctx, hist, at, kind, local):
    """another event at a number taken"""
    c = Log(hist)
    e = c.cur[at]
    good = ctx.boolean("good")
    if kind == "body":       # same kind, other content
        r = body(e, said=nosaid(4))
    elif kind == "ixn":
        r = interact(c.pre, c.cur[at - 1].said if at else nosaid(7), sn=at, data=[dict(d=nosaid(5))], **JSON)
    elif kind == "rot":
        r = rotate(c.pre, keys(c.k + 2, c.k + 3), c.cur[at - 1].said, sn=at, isith="1", ndigs=digs(c.k + 4), nsith="1", wits=W(c.wits), toad=1, **JSON)
    else:                    # an event already superseded
        r = [o for o in c.old if o.sn == at][0]
    ideal.ORACLE = lambda vk, msg, s: good
    before = c.record()
    sig0 = c.sigs(e.said)
    try:
        c.kvy.processEvent(r, [sig(0, n=70)], wigers=[sig(0, n=71)], local=local)
    except LikelyDuplicitousError:
        kept = list(c.db.ldes.getOnIter(keys=c.pre, on=at)) if hasattr(c.db.ldes, "getOnIter") else c.db.ldes.get(keys=c.pre, on=at)
        ctx.check(kept == [r.said], "rival not kept as likely duplicitous", lambda: kept)
        ctx.check(c.db.evts.get(keys=(c.pre, r.said)).said == r.said, "rival's body not kept")
        if kind != "old":
            ctx.check(c.db.esrs.get(keys=(c.pre, r.said)).local == local, "rival kept as from another source")
        ctx.reach("rival")
    except (ValidationError, ValueError) as ex:
        ctx.check(False, "rival event dropped without trace", lambda: repr(ex)[:100])
    else:
        ctx.check(False, "rival event accepted")
    ctx.check(c.record() == before, "rival event changed the record")
    ctx.check([s.qb64 for s in c.sigs(e.said)[0]] == [s.qb64 for s in sig0[0]] and
              [s.qb64 for s in c.sigs(e.said)[1]] == [s.qb64 for s in sig0[1]], "signatures of the event in force changed")
    c.kvy.processEscrowDuplicitous()
    ctx.check(c.record() == before, "rival event applied by a later pass")
    ctx.check(c.db.ldes.getLast(keys=c.pre, on=at) == r.said, "rival forgotten by a later pass")


def cases(tier):
    T = tier == "thorough"
    out = []
    hs = ["", "x", "r", "rx", "xw", "wx", "xx1", "xx1x", "rxx3", "wxw"] + (["xxx1x", "rxwx", "xwxx3x"] if T else [])
    for h in hs:
        c = 1
        for ch in h:
            c = int(ch) + 1 if ch.isdigit() else c + 1
        for at in range(c):
            for ns, nw in ([(2, 0), (0, 2), (1, 1)] if T or len(h) < 3 else [(1, 1)]):
                out.append(dict(name="again-%s-%d-%d%d" % (h or "0", at, ns, nw), fn=again, params=dict(hist=h, at=at, ns=ns, nw=nw), weight=2, expect=["again"]))
    for h, at, kinds in [("", 0, ["body"]), ("x", 0, ["body"]), ("r", 0, ["body"]), ("x", 1, ["body", "ixn"]), ("r", 1, ["body", "ixn", "rot"]),
                         ("rx", 1, ["body", "ixn", "rot"]), ("rx", 2, ["body", "ixn"]), ("xw", 1, ["body", "ixn", "rot"]), ("xx1", 1, ["ixn", "rot", "old"]),
                         ("xx1x", 1, ["ixn", "rot", "old"]), ("xx1x", 2, ["ixn", "old"]), ("rxx3", 2, ["body", "ixn"])]:
        for kind in kinds:
            for local in (False, True):
                out.append(dict(name="rival-%s-%d-%s-%s" % (h or "0", at, kind, "local" if local else "remote"), fn=rival,
                                params=dict(hist=h, at=at, kind=kind, local=local), expect=["rival"]))
    return out


BOUNDS = "logs of up to 5 events (thorough 6) with two keys and two witnesses, with rotations, witness changes and recoveries; up to two signatures per presentation, each with a stated position 0..3 and any maker; rivals of each kind at each number, valid or not signed"
OUTSIDE = "delegated logs (C16); more keys or signatures; expiry of the duplicitous escrow"
ASSUMPTIONS = ["signature scheme idealised: which key made a signature is arbitrary"]
