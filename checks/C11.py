"""Real Kever/Kevery over histories of real events; the next event has a symbolic sequence number, any prior digest
of the history or an unknown one, and a symbolic signature verdict.  Oracle: a chain model kept here."""
from checks.kel import *
from keri.kering import (ValidationError, OutOfOrderError, LikelyDuplicitousError, MissingSignatureError)


class Chain:
    """The event log as the rules define it, and the real one beside it."""

    def __init__(self, hist, traits=(), kevery=False):
        self.db = open_db()
        self.kvy = Kevery(db=self.db, local=False, lax=True) if kevery else None
        allgood()
        self.ki = 0
        s = incept(keys=keys(0), ndigs=digs(1), cnfg=list(traits), **JSON)
        self.pre = s.pre
        self.icp = s
        if kevery:
            self.kvy.processEvent(s, [sig()])
            self.kv = self.kvy.kevers[self.pre]
        else:
            self.kv = Kever(serder=s, sigers=[sig()], db=self.db)
            self.db.kevers[self.pre] = self.kv
        self.cur = [s]           # the events in force, by sequence number
        self.log = [s]           # all, as first seen
        self.est = 0
        for h in hist:
            if h == "x":
                self.give(self.ixn(len(self.cur), self.cur[-1].said))
            elif h == "r":
                self.give(self.rot(len(self.cur), self.cur[-1].said))
            else:                # recovery at sequence number h
                self.give(self.rot(int(h), self.cur[int(h) - 1].said))

    def ixn(self, sn, prior):
        return interact(self.pre, prior, sn=sn, data=[dict(d=nosaid(9))] if len(self.log) % 2 else [], **JSON)

    def rot(self, sn, prior, i=None):
        i = self.ki if i is None else i
        return rotate(self.pre, keys(i + 1), prior, sn=sn, ndigs=digs(i + 2), **JSON)

    def present(self, e, n=1):
        if self.kvy is not None:
            self.kvy.processEvent(e, [sig(n=n)])
        else:
            self.kv.update(e, [sig(n=n)])

    def give(self, e):
        self.present(e)
        self.took(e)

    def took(self, e, sn=None):
        sn = e.sn if sn is None else sn
        del self.cur[sn:]
        self.cur.append(e)
        self.log.append(e)
        if e.ilk == "rot":
            self.est = sn
            self.ki += 1

    def rightful(self, ilk, sn, prior):
        """whether the rules let an event of this kind, sequence number and prior digest in"""
        cur = len(self.cur) - 1
        ok = (sn == cur + 1) & (prior == self.cur[-1].said)
        if ilk == "rot" and self.cur[-1].ilk == "ixn":
            for at in range(self.est + 1, cur + 1):
                ok = ok | ((sn == at) & (prior == self.cur[at - 1].said))
        return ok


def shown(ctx, c):
    """what the database and key state say"""
    st = kstate(c.kv)
    return st, kel(c.db, c.pre), fel(c.db, c.pre), drec(c.db.states.get(keys=c.pre))


def consistent(ctx, c, new, sn, before):
    """after acceptance"""
    st0, kel0, fel0, rec0 = before
    st, kl, fl, rec = shown(ctx, c)
    ctx.check(st["sn"] == sn, "key state sequence number")
    ctx.check(st["d"] == new.said, "key state digest")
    ctx.check(fl == fel0 + [new.said], "first seen log is not the old one plus the event")
    ctx.check(st["fn"] == len(fel0), "first seen ordinal")
    ctx.check(len(kl) == len(kel0) + 1, "event log entries")
    ctx.check(c.db.kels.getLast(keys=c.pre, on=sn) == new.said, "event log does not end in the event at its number")
    for e in kel0:
        ctx.check(e in kl, "logged event lost")
    ctx.check(c.db.evts.get(keys=(c.pre, new.said)).said == new.said, "event body not stored")
    ctx.check(rec["d"] == new.said and rec["i"] == c.pre and rec["et"] == new.ilk, "stored key state")
    ctx.check(int(rec["s"], 16) == sn, "stored sequence number")
    if new.ilk == "rot":
        ctx.check(st["keys"] == list(new.keys) and st["ndigs"] == list(new.ndigs), "keys not those of the rotation")
        ctx.check(st["est"][1] == new.said, "latest establishment event")
        ctx.check(st["est"][0] == sn, "latest establishment number")
    else:
        for k in ("keys", "ndigs", "kt", "nt", "toad", "wits", "est"):
            ctx.check(st[k] == st0[k], "interaction changed " + k)


def nextevent(ctx, hist, ilk, traits=(), kevery=False):
    c = Chain(hist, traits, kevery)
    sn = ctx.integer("sn", 0, 2 ** 20)
    priors = [e.said for e in c.log] + [nosaid(1)]
    prior = ctx.choose("prior", priors)
    good = ctx.boolean("good")
    nth = ctx.choose("keys", list(range(c.ki + 1))) if ilk == "rot" else None     # the keys some establishment event committed to
    base = c.ixn(len(c.cur), prior) if ilk == "ixn" else c.rot(len(c.cur), prior, nth)
    e = body(base, s="%x" % sn, said=nosaid(0))
    ideal.ORACLE = lambda vk, msg, s: good
    before = shown(ctx, c)
    okay = c.rightful(ilk, sn, prior) & good
    if ilk == "rot":
        okay = okay & (nth == c.ki)
    if "EO" in traits and ilk == "ixn":
        okay = False
    try:
        c.present(e)
    except (ValidationError, ValueError) as ex:
        ctx.check(not okay, "rightful event refused", lambda: repr(ex)[:200])
        for a, b in zip(before, shown(ctx, c)):
            ctx.check(a == b, "refused event changed the record")
        ctx.reach("refused")
        return
    if kevery and "ixn" == ilk:
        pass
    ctx.check(okay, "event accepted that does not follow from the log")
    consistent(ctx, c, e, sn, before)
    ctx.reach("recovery" if len(c.cur) > 1 and bool(sn < len(c.cur)) else "taken")


def inception(ctx):
    """A first event must be an inception with number zero and good signature."""
    db = open_db()
    ilk = ctx.choose("ilk", ["icp", "rot", "ixn"])
    sn = ctx.integer("sn", 0, 2 ** 20)
    good = ctx.boolean("good")
    s = incept(keys=keys(0), ndigs=digs(1), **JSON)
    base = dict(icp=s, rot=rotate(s.pre, keys(1), s.said, sn=1, ndigs=digs(2), **JSON),
                ixn=interact(s.pre, s.said, sn=1, **JSON))[ilk]
    e = body(base, s="%x" % sn)
    ideal.ORACLE = lambda vk, msg, sg: good
    kvy = Kevery(db=db, local=False, lax=True)
    okay = (sn == 0) & good & (ilk == "icp")
    try:
        kvy.processEvent(e, [sig()])
    except (ValidationError, ValueError):
        ctx.check(not okay, "rightful inception refused")
        ctx.check(s.pre not in kvy.kevers, "key state made without a valid inception")
        ctx.check(kel(db, s.pre) == [] and fel(db, s.pre) == [] and db.states.get(keys=s.pre) is None, "record changed")
        ctx.reach("refused")
        return
    ctx.check(okay, "first event accepted without being a signed inception at zero")
    ctx.check(kel(db, s.pre) == [(0, s.said)] and fel(db, s.pre) == [s.said], "log")
    ctx.check(kvy.kevers[s.pre].sn == 0, "state")
    ctx.reach("taken")


def foreign(ctx):
    """An event naming another identifier is never applied to this one."""
    c = Chain("x")
    other = incept(keys=keys(7), ndigs=digs(8), **JSON).pre
    ilk = ctx.choose("ilk", ["ixn", "rot"])
    mine = ctx.boolean("mine")
    base = c.ixn(2, c.cur[-1].said) if ilk == "ixn" else c.rot(2, c.cur[-1].said)
    e = body(base, i=c.pre if mine else other, said=nosaid(0))
    before = shown(ctx, c)
    try:
        c.kv.update(e, [sig()])
    except ValidationError:
        ctx.check(not mine, "own event refused")
        for a, b in zip(before, shown(ctx, c)):
            ctx.check(a == b, "refused event changed the record")
        ctx.reach("refused")
        return
    ctx.check(mine, "event of another identifier applied")
    ctx.reach("taken")


HISTS = ["", "x", "xx", "r", "rx", "rxx", "xr", "xx1", "xx2", "xx1x", "x1", "xxx2"]


def cases(tier):
    T = tier == "thorough"
    out = [dict(name="inception", fn=inception, expect=["taken", "refused"]), dict(name="foreign", fn=foreign, expect=["taken", "refused"])]
    for h in HISTS + (["rrxx", "rxx3x", "xxxx", "xx1xx2", "rxxx3"] if T else []):
        for ilk in ("ixn", "rot"):
            rec = ilk == "rot" and h and h[-1] == "x"
            out.append(dict(name="next-%s-%s" % (h or "0", ilk), fn=nextevent, params=dict(hist=h, ilk=ilk), weight=len(h) + 1,
                            expect=["taken", "refused"] + (["recovery"] if rec else [])))
    for h in ("", "x", "xx1") if not T else HISTS:
        for ilk in ("ixn", "rot"):
            rec = ilk == "rot" and h and h[-1] == "x"
            out.append(dict(name="kevery-%s-%s" % (h or "0", ilk), fn=nextevent, params=dict(hist=h, ilk=ilk, kevery=True), weight=len(h) + 1,
                            expect=["taken", "refused"] + (["recovery"] if rec else [])))
    for h in ("", "r"):
        for ilk in ("ixn", "rot"):
            out.append(dict(name="estonly-%s-%s" % (h or "0", ilk), fn=nextevent, params=dict(hist=h, ilk=ilk, traits=("EO",)),
                            expect=["refused"] + (["taken"] if ilk == "rot" else [])))
    return out


BOUNDS = "histories of up to 5 events (thorough 7) mixing interactions, rotations and recoveries, single key; the next event's sequence number anywhere in 0..2^20, its prior any digest of the history or an unknown one, its signature good or bad"
OUTSIDE = "longer histories; several keys per event (C05, C12); delegated rotations (C16)"
ASSUMPTIONS = ["an event's said is unique to its body (C08)", "signature scheme idealised"]
