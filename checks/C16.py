"""Real Kevery/Kever on a delegator's and a delegate's log: where and how the delegator's events seal the delegated event,
which seal source comes attached, the delegate's keys and signature verdicts vary symbolically or case by case.
Oracle: the seals of the delegator's events in force and the superseding rules, tracked here."""
from checks.kel import *
from keri.core.coring import Number, Diger, MtrDex
from keri.core.eventing import delcept, deltate
from keri.kering import (ValidationError, MissingDelegationError, MissingSignatureError, MisfitEventSourceError, MissingDelegableApprovalError)


class Party:
    """one identifier's log: events in force and superseded"""

    def __init__(self, kvy, base, delpre=None, traits=(), wits=()):
        self.kvy, self.base, self.delpre = kvy, base, delpre
        kw = dict(keys=keys(base), ndigs=digs(base + 1, base + 2, base + 3), nsith="1", cnfg=list(traits), wits=list(wits), toad=1 if wits else 0,
                  code=MtrDex.Blake3_256, **JSON)
        self.icp = delcept(delpre=delpre, **kw) if delpre else incept(**kw)
        self.pre = self.icp.pre
        self.wits = list(wits)
        self.cur, self.old, self.log = [], [], []

    def ixn(self, sn=None, seals=()):
        sn = len(self.cur) if sn is None else sn
        return interact(self.pre, self.cur[sn - 1].said, sn=sn, data=list(seals), **JSON)

    def rot(self, sn=None, seals=(), k=None, nxt=None):
        """rotation to key k"""
        sn = len(self.cur) if sn is None else sn
        k = self.base + 1 if k is None else k
        nxt = [k + 1, k + 2, k + 3] if nxt is None else nxt
        f = deltate if self.delpre else rotate
        return f(self.pre, keys(k), self.cur[sn - 1].said, sn=sn, ndigs=digs(*nxt), nsith="1", wits=self.wits, toad=1 if self.wits else 0,
                 data=list(seals), **JSON)

    def took(self, e):
        self.old += self.cur[e.sn:]
        del self.cur[e.sn:]
        self.cur.append(e)
        self.log.append(e)

    def give(self, e, boss=None, n=90, ondex=None, local=False):
        kw = dict(delsner=Number(num=boss.sn), delsger=Diger(qb64=boss.said)) if boss is not None else {}
        self.kvy.processEvent(e, [sig(0, n=n, ondex=ondex, code=IdrDex.Ed25519_Big_Sig if ondex else None)], wigers=[sig(0, n=91)] if self.wits else [], local=local, **kw)
        self.took(e)


def seal(e):
    return dict(i=e.pre, s="%x" % e.sn, d=e.said)


def setup(traits=(), lax=True):
    db = open_db()
    kvy = Kevery(db=db, lax=lax, local=False)
    allgood()
    a = Party(kvy, 0, traits=traits)
    a.give(a.icp)
    return db, kvy, a


def record(db, pre):
    st = db.states.get(keys=pre)
    return kel(db, pre), fel(db, pre), drec(st) if st is not None else None


def pend(db, pre):
    return [d for _, o, d in db.pdes.getAllItemIter(keys=pre)]


def inked(ctx, tag, e, apre):
    """a seal of e as the delegator may write it, and whether it is one"""
    v = ctx.choose(tag + "seal", ["s", "i", "d", "shape"])       # what may be wrong with it
    i = apre if v == "i" else e.pre
    s = ctx.integer(tag + "s", 0, 300) if v == "s" else e.sn
    d = nosaid(1) if v == "d" else e.said
    shape = ("d",) if v == "shape" else ("i", "s", "d")
    good = (s == e.sn) & (i == e.pre) & (d == e.said) & (len(shape) == 3)
    v = dict(i=i, s="%x" % s, d=d)
    return {k: v[k] for k in shape}, good


def anchored(ctx, ilk, dhist, couple, eager, when, traits=()):
    """delegated inception or rotation; the delegator's log dhist: x interaction, s interaction with a seal, r rotation with a seal,
    digit rotation at that number without one.  when: "after" it, or the event comes "before" the delegator's last event or "unknown" """
    db, kvy, a = setup(traits)
    e0 = Party(kvy, 40, delpre=a.pre)
    e = e0.icp
    if ilk == "drt":
        allgood()
        s0 = a.ixn(seals=[seal(e)])
        a.give(s0)
        if traits:
            return ctx.reach("accepted")
        e0.give(e, boss=s0)
        e = e0.rot()
    # the delegator's further events, with the seals as it writes them
    seals = {}
    evs = []
    n = len(a.cur)
    cur = list(a.cur)
    for j, h in enumerate(dhist):
        if h in "sr":
            sl, good = inked(ctx, "%d" % j, e, a.pre)
        else:
            sl, good = None, False
        at = int(h) if h.isdigit() else len(cur)
        f = dict(data=[dict(d=nosaid(6))] + ([sl] if sl else []))
        said = Diger(raw=bytes([150 + j] * 32), code=MtrDex.Blake3_256).qb64
        if h in "sx":
            b = interact(a.pre, cur[at - 1].said, sn=at, data=[], **JSON)
        else:
            b = rotate(a.pre, keys(a.base + 1), cur[at - 1].said, sn=at, ndigs=digs(a.base + 4), nsith="1", **JSON)
        b = body(b, said=said, a=f["data"])
        del cur[at:]
        cur.append(b)
        evs.append(b)
        seals[said] = good
    late = evs[-1:] if when == "before" else evs if when == "unknown" else []
    for b in evs[:len(evs) - len(late)]:
        a.give(b)
    delsner = delsger = None
    if couple is not None:
        delsner, delsger = Number(num=couple), Diger(qb64=ctx.choose("dig", [cur[couple].said if couple < len(cur) else nosaid(3), nosaid(2)]))
    sgood = ctx.boolean("signed")
    ideal.ORACLE = lambda vk, msg, s: True if bytes(s)[0] == 90 else sgood
    before = record(db, e.pre)

    def inforce():
        return [b for b in a.cur]

    def sealed(at=None):
        r = False
        for b in inforce():
            if b.said in seals and (at is None or b.sn == at):
                r = r | seals[b.said]
        return r
    ok = sealed(couple) if couple is not None else (sealed() if eager else False)
    if traits:
        ok = False
    ok = ok & sgood
    err = None
    try:
        kvy.processEvent(e, [sig(0, n=50)], delsner=delsner, delsger=delsger, eager=eager, local=False)
    except ValidationError as ex:
        err = ex
        ctx.check(ok == False, "sealed delegated event refused", lambda: repr(ex)[:120])
        ctx.check(record(db, e.pre) == before, "refused delegated event changed the record")
        ctx.check((pend(db, e.pre) == [e.said]) == (sgood if not traits else False), "signed delegated event not kept for its seal")
    else:
        ctx.check(ok, "delegated event accepted without the delegator's seal")
    took = err is None
    if late:
        for b in late:
            a.give(b)
    for _ in range(2):
        kvy.processEscrowPartialDels()
    fl = fel(db, e.pre)
    if not took and couple is not None and couple >= len(a.cur):
        # waits for the event the source couple names
        ctx.check(fl == before[1], "delegated event accepted without the delegator's seal")
    elif not took:
        ctx.check(((sealed() if not traits else False) & sgood) == (fl == before[1] + [e.said]), "kept delegated event accepted exactly when sealed", lambda: fl)
    if fl != before[1]:
        rec = record(db, e.pre)
        ctx.check(rec[1] == before[1] + [e.said] and rec[2]["d"] == e.said and rec[2]["di"] == a.pre, "record after acceptance")
        ctx.check(pend(db, e.pre) == [], "accepted event still pending")
        num, dig = db.aess.get(keys=(e.pre, e.said))
        src = [b for b in (a.cur + a.old) if b.said == dig.qb64]
        ctx.check(len(src) == 1 and num.num == src[0].sn and src[0].said in seals, "source of the delegation kept is not an event of the delegator")
        if src and src[0].said in seals:
            ctx.check(seals[src[0].said], "source of the delegation kept does not seal the event")
        ctx.reach("accepted")
    else:
        ctx.reach("not")


def supersede(ctx, nixn, at, where, two=False):
    """delegate: inception, rotation (sealed at the delegator's number 3), nixn interactions, then a rotation at number `at`, whose
    seal stands `where` against that of the first rotation"""
    db, kvy, a = setup()
    e = Party(kvy, 40, delpre=a.pre)
    s0 = a.ixn(seals=[seal(e.icp)])
    a.give(s0)
    a.give(a.ixn())
    e.give(e.icp, boss=s0)
    old = e.rot(k=41)
    # the rival: its key is one committed in the inception (42), or one the first rotation committed (43 is both), or another
    k = ctx.choose("key", [42, 43, 44, 45, 60])
    ond = ctx.choose("ondex", [0, 1, 2])
    cur = [e.icp, old]
    for j in range(nixn):
        cur.append(interact(e.pre, cur[-1].said, sn=2 + j, **JSON))
    prior = ctx.choose("prior", [c.said for c in cur])
    new = deltate(e.pre, keys(k), prior, sn=at, ndigs=digs(70), nsith="1", data=[], **JSON)
    base = dict(inorder=at == len(cur))
    late = None
    if where == "same-later":
        b = a.ixn(seals=[seal(old), seal(new)])
        bo = bn = b
        a.give(b)
    elif where == "same-earlier":
        b = a.ixn(seals=[seal(new), dict(d=nosaid(1)), seal(old)])
        bo = bn = b
        a.give(b)
    elif where == "later":
        bo = a.ixn(seals=[seal(old)])
        a.give(bo)
        a.give(a.ixn())
        bn = a.ixn(seals=[seal(new)])
        a.give(bn)
    elif where == "earlier":
        bn = a.ixn(seals=[seal(new)])
        a.give(bn)
        bo = a.ixn(seals=[seal(old)])
        a.give(bo)
    elif where == "earlier-rot":
        bn = a.rot(seals=[seal(new)])
        a.give(bn)
        bo = a.ixn(seals=[seal(old)])
        a.give(bo)
    elif where == "rotated":      # the delegator's own recovery of the interaction that sealed the first
        bo = a.ixn(seals=[seal(old)])
        a.give(bo)
        bn = a.rot(sn=3, seals=[seal(new)])
        late = bn
    elif where == "rotated-lower":
        x = a.ixn()
        a.give(x)
        bo = a.ixn(seals=[seal(old)])
        a.give(bo)
        bn = a.rot(sn=3, seals=[seal(new)])
        late = bn
    e.give(old, boss=bo, ondex=0)
    for x in cur[2:]:
        e.give(x)
    if late is not None:
        a.give(late)
    good = ctx.boolean("good")
    ideal.ORACLE = lambda vk, msg, s: good
    before = record(db, e.pre)
    state0 = kstate(kvy.kevers[e.pre])
    est = 1
    if at > est:                  # over interactions only, or next in line
        nxt = [42, 43, 44]        # what the rotation committed
        rule = True
    else:
        nxt = [41, 42, 43]        # what the inception committed
        rule = where in ("same-later", "later", "rotated")
    okay = good & (nxt[ond] == k) & (prior == cur[at - 1].said) & rule & (at >= 1)
    try:
        kvy.processEvent(new, [sig(0, n=50, ondex=ond, code=IdrDex.Ed25519_Big_Sig)], delsner=Number(num=bn.sn), delsger=Diger(qb64=bn.said))
    except ValidationError as ex:
        ctx.check(okay == False, "rightful superseding delegated rotation refused", lambda: repr(ex)[:200])
        kvy.processEscrows()
        ctx.check(record(db, e.pre) == before and kstate(kvy.kevers[e.pre]) == state0, "refused rotation changed the record")
        ctx.reach("refused")
        return
    ctx.check(okay, "delegated rotation accepted against the superseding rules")
    st, rec = kstate(kvy.kevers[e.pre]), record(db, e.pre)
    ctx.check(st["sn"] == at and st["d"] == new.said and st["keys"] == keys(k) and st["ndigs"] == digs(70) and st["est"] == (at, new.said), "key state")
    ctx.check(rec[1] == before[1] + [new.said] and rec[2]["d"] == new.said and db.kels.getLast(keys=e.pre, on=at) == new.said, "record")
    ctx.check(all(x in rec[0] for x in before[0]), "superseded events kept")
    ctx.reach("accepted")


def chain(ctx, how):
    """delegator of the delegator: the rotations of the delegate are sealed by rival rotations of its delegator"""
    db, kvy, a = setup()
    b = Party(kvy, 20, delpre=a.pre)
    e = Party(kvy, 40, delpre=b.pre)
    s0 = a.ixn(seals=[seal(b.icp)])
    a.give(s0)
    b.give(b.icp, boss=s0)
    s1 = b.ixn(seals=[seal(e.icp)])
    b.give(s1)
    e.give(e.icp, boss=s1)
    old, new = e.rot(k=41), e.rot(k=42)
    bo = b.rot(seals=[seal(old)], k=21) if how != "ixn" else b.ixn(seals=[seal(old)])
    bn = b.rot(seals=[seal(new)], k=22)
    if how in ("later", "ixn"):
        ao = a.ixn(seals=[seal(bo)])
        a.give(ao)
        an = a.ixn(seals=[seal(bn)])
        a.give(an)
    else:
        an = a.ixn(seals=[seal(bn)])
        a.give(an)
        ao = a.ixn(seals=[seal(bo)])
        a.give(ao)
    b.give(bo, boss=ao if how != "ixn" else None, ondex=0)
    e.give(old, boss=bo, ondex=0)
    good = ctx.boolean("good")
    try:
        b.give(bn, boss=an, ondex=1)
        rival = True
    except ValidationError:
        rival = False
    ctx.check(rival == (how != "earlier"), "superseding of the delegator")
    before = record(db, e.pre)
    ideal.ORACLE = lambda vk, msg, s: good
    eager = ctx.boolean("eager")
    try:
        kvy.processEvent(new, [sig(0, n=50, ondex=1, code=IdrDex.Ed25519_Big_Sig)], delsner=Number(num=bn.sn), delsger=Diger(qb64=bn.said), eager=bool(eager))
    except ValidationError as ex:
        ctx.check((good & rival) == False, "rightful superseding delegated rotation refused", lambda: repr(ex)[:200])
        ctx.check(record(db, e.pre) == before, "refused rotation changed the record")
        ctx.reach("refused")
        return
    ctx.check(good & rival, "delegated rotation accepted against the superseding rules")
    ctx.check(record(db, e.pre)[2]["d"] == new.said, "record")
    ctx.reach("accepted")


def local(ctx, role, ilk, sealed, couple):
    """own, witnessed and delegated identifiers take delegated events from protected sources only"""
    db, kvy, a = setup()
    wits = [wit(0)] if role == "witness" else []
    e0 = Party(kvy, 40, delpre=a.pre, wits=wits)
    e = e0.icp
    if ilk != "dip":
        s0 = a.ixn(seals=[seal(e)])
        a.give(s0)
        e0.give(e, boss=s0)
        e = e0.rot() if ilk == "drt" else e0.ixn()
    b = a.ixn(seals=[seal(e)] if sealed else [])
    a.give(b)
    db.prefixes.add(dict(own=e0.pre, witness=wit(0), delegator=a.pre, nobody=nosaid(4))[role])
    loc, good = ctx.boolean("local"), ctx.boolean("good")
    kw = dict(delsner=Number(num=b.sn), delsger=Diger(qb64=b.said)) if couple else {}
    ideal.ORACLE = lambda vk, msg, s: good
    before = record(db, e.pre)
    free = role == "nobody" or (role == "delegator" and ilk == "ixn")
    held = role in ("own", "witness")
    if ilk == "ixn":
        okay = good & (True if free else loc)
    else:
        okay = good & (sealed and couple if role == "nobody" else loc if held else loc & (sealed and couple))
    try:
        kvy.processEvent(e, [sig(0, n=50)], wigers=[sig(0, n=51)] if wits else [], local=bool(loc), **kw)
    except ValidationError as ex:
        ctx.check(okay == False, "rightful event refused", lambda: repr(ex)[:200])
        ctx.check(record(db, e.pre) == before, "refused event changed the record")
        if isinstance(ex, MisfitEventSourceError):
            ctx.check((good & (loc == False)) if not free else False, "event wrongly taken as from an unprotected source")
            ctx.check(db.misfits.get(keys=(e.pre, e.snh)) == [e.said], "event from an unprotected source not kept aside")
        elif role == "delegator" and ilk != "ixn" and not couple:
            dl = [d for _, d in db.delegables.getTopItemIter()]
            ctx.check((dl == [e.said]) == (good & loc), "event asking for approval not kept for it")
            kvy.processEscrowDelegables()
            ctx.check(record(db, e.pre) == before, "delegated event accepted without approval")
        kvy.processEscrows()
        ctx.check(((record(db, e.pre) == before) | (good & (sealed if role == "nobody" else False))), "event accepted by a later pass")
        ctx.reach("refused")
        return
    ctx.check(okay, "event accepted from an unprotected source or without the delegator's seal")
    ctx.check(record(db, e.pre)[1] == before[1] + [e.said], "record")
    ctx.reach("accepted")


def kinds(ctx, delegated, ilk, hist):
    """a delegated log rotates by delegated rotations only, another never by them"""
    db, kvy, a = setup()
    p = a
    boss = None
    if delegated:
        p = Party(kvy, 40, delpre=a.pre)
        boss = a.ixn(seals=[seal(p.icp)])
        a.give(boss)
        p.give(p.icp, boss=boss)
    at = None
    for h in hist:
        if h == "x":
            p.give(p.ixn())
        else:
            r = p.rot()
            if delegated:
                boss = a.ixn(seals=[seal(r)])
                a.give(boss)
            p.give(r, boss=boss if delegated else None)
            p.base += 1
    at = ctx.choose("at", list(range(1, len(p.cur) + 1)))
    f = deltate if ilk == "drt" else rotate
    e = f(p.pre, keys(p.base + 1), p.cur[at - 1].said, sn=at, ndigs=digs(70), nsith="1", **JSON)
    b = a.ixn(seals=[seal(e)]) if delegated else None
    if b is not None:
        a.give(b)
    elif ilk == "drt":
        b = a.icp
    before = record(db, p.pre)
    lastest = max(c.sn for c in p.cur if c.ilk not in ("ixn",))
    okay = (ilk == "drt") == delegated and (at > lastest)
    kw = dict(delsner=Number(num=b.sn), delsger=Diger(qb64=b.said)) if b is not None else {}
    try:
        kvy.processEvent(e, [sig(0, n=50)], **kw)
    except (ValidationError, ValueError) as ex:
        ctx.check(not okay, "rightful rotation refused", lambda: repr(ex)[:200])
        ctx.check(record(db, p.pre) == before, "refused rotation changed the record")
        ctx.reach("refused")
        return
    ctx.check(okay or (delegated and ilk == "drt" and at == lastest), "rotation of the wrong kind accepted")
    ctx.reach("accepted")


def again(ctx, ilk):
    """an accepted delegated event again only adds verified signatures"""
    db, kvy, a = setup()
    e = Party(kvy, 40, delpre=a.pre)
    b = a.ixn(seals=[seal(e.icp)])
    a.give(b)
    e.give(e.icp, boss=b)
    ev = e.icp
    if ilk == "drt":
        ev = e.rot()
        b = a.ixn(seals=[seal(ev)])
        a.give(b)
        e.give(ev, boss=b)
    good, with_ = ctx.boolean("good"), ctx.boolean("couple")
    ideal.ORACLE = lambda vk, msg, s: good
    before = record(db, e.pre)
    kw = dict(delsner=Number(num=b.sn), delsger=Diger(qb64=b.said)) if with_ else {}
    kvy.processEvent(ev, [sig(0, n=50)], **kw)
    ctx.check(record(db, e.pre) == before, "accepted event again changed the record")
    ctx.check(good == any(bytes(s.raw)[0] == 50 for s in db.sigs.get(keys=(e.pre, ev.said))), "late signature kept exactly when it verifies")
    for esc in (db.pses, db.pdes, db.ooes, db.ldes):
        ctx.check(list(esc.getAllItemIter(keys=e.pre)) == [], "accepted event escrowed")
    ctx.reach("again")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, exp, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=exp, weight=weight))
    AN = ["accepted", "not"]
    for ilk in ("dip", "drt"):
        o = 0 if ilk == "dip" else 1
        for dh, couples in [("s", [None, 1, 2]), ("xs", [None, 1, 2]), ("r", [None, 1]), ("ss", [None, 1, 2])] + \
                ([("xss", [None, 2, 3]), ("sxs", [None, 1, 3]), ("sr", [None, 1, 2])] if T else []):
            for c in couples:
                c = c if c is None else c + o
                for eager in (False, True):
                    for when in ("after", "before") if dh in ("s", "ss") else ("after",):
                        if dh == "ss" and when == "before" and not T:
                            continue
                        exp = AN if c is None or c - o <= len(dh) else AN[1:]
                        add("anchor-%s-%s-%s-%s-%s" % (ilk, dh, c, "eager" if eager else "-", when), anchored, exp, 2 + len(dh), ilk=ilk, dhist=dh, couple=c, eager=eager, when=when)
        for dh, c in [("ss%d" % (1 + o), None), ("ss%d" % (1 + o), 2 + o), ("xs%d" % (1 + o), None), ("xs%d" % (1 + o), 2 + o), ("s%d" % (1 + o), 1 + o), ("s%d" % (1 + o), None)]:
            for eager in (False, True):
                add("superseded-%s-%s-%s-%s" % (ilk, dh, c, "eager" if eager else "-"), anchored, ["not"], 4, ilk=ilk, dhist=dh, couple=c, eager=eager, when="after")
    add("nodelegation", anchored, ["not"], ilk="dip", dhist="s", couple=1, eager=True, when="after", traits=("DND",))
    for where in ("same-later", "same-earlier", "later", "earlier", "earlier-rot", "rotated", "rotated-lower"):
        for nixn in (0, 1) if not T else (0, 1, 2):
            good = where in ("same-later", "later", "rotated")
            add("supersede-%s-%d" % (where, nixn), supersede, ["refused"] + (["accepted"] if good else []), 3, nixn=nixn, at=1, where=where)
    for nixn, at in [(0, 2), (1, 2), (2, 2), (2, 3), (2, 4)]:
        add("recover-%d-%d" % (nixn, at), supersede, ["accepted", "refused"], 3, nixn=nixn, at=at, where="later")
    for how in ("later", "earlier", "ixn"):
        add("chain-%s" % how, chain, ["refused"] + (["accepted"] if how != "earlier" else []), how=how)
    for role in ("own", "witness", "delegator", "nobody"):
        for ilk in ("dip", "drt", "ixn"):
            for sealed in (True, False):
                for couple in (True, False):
                    if ilk == "ixn" and (sealed or couple):
                        continue
                    acc = ilk == "ixn" or role in ("own", "witness") or (sealed and couple)
                    add("local-%s-%s-%d%d" % (role, ilk, sealed, couple), local, ["refused"] + (["accepted"] if acc else []), role=role, ilk=ilk, sealed=sealed, couple=couple)
    for delegated in (True, False):
        for ilk in ("rot", "drt"):
            for hist in ("", "x", "r", "rx"):
                fit = (ilk == "drt") == delegated
                add("kind-%d-%s-%s" % (delegated, ilk, hist or "0"), kinds, (["accepted"] if fit else ["refused"]), delegated=delegated, ilk=ilk, hist=hist)
    for ilk in ("dip", "drt"):
        add("again-%s" % ilk, again, ["again"], ilk=ilk)
    return out


BOUNDS = "one delegator (chains of two) with up to 5 events and one delegate with up to 5; one or two seals whose identifier, number (0..300), digest and shape vary; any source couple within the log or just past it; superseding rotations at every number with the seal in the same, a later, an earlier or a superseding event of the delegator; protected and unprotected sources"
OUTSIDE = "group controlled delegators and delegates; delegation chains longer than two; a source couple that names an event that never comes"
ASSUMPTIONS = ["signature scheme idealised", "digests of the varied delegator events are arbitrary distinct constants"]
