"""The real Adjudicator over an event database with a real key state, and reports of watchers in every combination of who is asked, enabled, has answered, and with which sequence number
and event. Sequence numbers compared are symbolic over their whole range, as are thresholds. Oracle: who is even, ahead, behind or different and who agrees, worked out by itself."""
from checks.kel import *
from keri import kering
from keri.app import watching
from keri.app.watching import Adjudicator, diffState, States
from keri.core.parsing import Parser
from keri.recording import KeyStateRecord, ObservedRecord



class Hab:
    pre = key(90).qb64

    def __init__(self, db):
        self.db = db
        self.kevers = db.kevers


def local(sn):
    """a database in which an identifier is at sn"""
    db = open_db("vt")
    allgood()
    icp = incept(keys=keys(0), ndigs=digs(1), code=MtrDex.Blake3_256, **JSON)
    events = [icp]
    pre = icp.pre
    for i in range(1, sn + 1):
        events.append(interact(pre=pre, dig=events[-1].said, sn=i, **JSON))
    kvy = Kevery(db=db, lax=True, local=False)
    for e in events:
        kvy.processEvent(serder=e, sigers=[sig(0)])
    return db, pre, events


def differing(ctx, width):
    """two key states compared"""
    db, pre, events = local(0)
    mine, its = db.kevers[pre].state(), db.kevers[pre].state()
    a, b = ctx.integer("mine", 0, 16 ** width - 1), ctx.integer("its", 0, 16 ** width - 1)
    mine.s, its.s = "%x" % a, "%x" % b
    its.d = ctx.choose("d", [events[0].said, nosaid(1), nosaid(2)])
    its.i = ctx.choose("i", [pre, nosaid(3)])
    try:
        got = diffState(wit(1), mine, its)
    except ValueError:
        ctx.check(its.i != pre, "states of one identifier are not compared")
        ctx.reach("refused")
        return
    ctx.check(its.i == pre, "states of different identifiers compared")
    ctx.check((got.wit, got.pre, got.dig) == (wit(1), pre, its.d), "difference of another")
    ctx.check(got.sn == b, "sequence number of another")
    if got.state == States.even:
        ctx.check(a == b and its.d == events[0].said, "not even")
    elif got.state == States.duplicitous:
        ctx.check(a == b and its.d != events[0].said, "not duplicitous")
    elif got.state == States.behind:
        ctx.check(b < a, "not behind")
    else:
        ctx.check(got.state == States.ahead and b > a, "not ahead")
    ctx.reach(got.state)


REPORTS = ["even", "other", "behind", "next", "next2", "later", "later2", "silent"]


def report(db, pre, events, sn, how, i):
    """record what watcher i says, as it is recorded when its reply is accepted"""
    said = nosaid(20 + i)
    db.obvs.pin(keys=(Hab.pre, wit(i), pre), val=ObservedRecord(enabled=how != "disabled"))
    if how == "silent":
        return None
    s, d = dict(even=(sn, events[sn].said), other=(sn, nosaid(1)), behind=(sn - 1, events[sn - 1].said), next=(sn + 1, nosaid(2)), next2=(sn + 1, nosaid(3)), later=(sn + 9, nosaid(4)),
                later2=(sn + 9, nosaid(2)), disabled=(sn, nosaid(1)))[how]
    ksr = db.kevers[pre].state()
    ksr.s, ksr.d = "%x" % s, d
    db.knas.pin(keys=(pre, wit(i)), val=Diger(qb64=said))
    db.ksns.pin(keys=(said,), val=ksr)
    return None if how == "disabled" else (wit(i), s, d)


def round_(ctx, n, sn, hows, extra):
    db, pre, events = local(sn)
    got = []
    for i in range(n):
        got.append(report(db, pre, events, sn, ctx.choose("w%d" % i, hows), i))
    asked = n
    if extra:
        # watchers of others, of another, and not enabled
        what = ctx.choose("extra", ["disabled", "owner", "watched"])
        if what == "disabled":
            report(db, pre, events, sn, "disabled", n)
        else:
            report(db, pre, events, sn, "other", n)
            db.obvs.rem(keys=(Hab.pre, wit(n), pre))
            db.obvs.pin(keys=(nosaid(9), wit(n), pre) if what == "owner" else (Hab.pre, wit(n), nosaid(9)), val=ObservedRecord(enabled=True))
    got = [g for g in got if g]
    enabled = {wit(i) for i in range(n)}
    before = (str(kstate(db.kevers[pre])), str(kel(db, pre)))
    adj = Adjudicator(hby=None, hab=Hab(db))
    toad = ctx.integer("toad", 0, 6)
    given = ctx.boolean("given")
    need = (n if toad == 0 else toad) if given else n
    try:
        adj.adjudicate(pre, toad if given else None)
    except ValueError:
        ctx.check(need > n, "threshold that fits is refused")
        ctx.check(not adj.cues, "conclusion of a refused request")
        ctx.reach("refused")
        return
    ctx.check(need <= n, "threshold of more than there are")
    ctx.check(before == (str(kstate(db.kevers[pre])), str(kel(db, pre))), "local key state changed")
    cues = list(adj.cues)
    ctx.check(len(cues) <= 1, "more than one conclusion")
    different = [g for g in got if g[1] == sn and g[2] != events[sn].said]
    ahead = [g for g in got if g[1] > sn]
    behind = [g for g in got if g[1] < sn]
    split = [g for g in ahead if any(h[1] == g[1] and h[2] != g[2] for h in ahead)]
    agreed = {(s, d) for _, s, d in ahead if sum((g[1], g[2]) == (s, d) for g in ahead) >= max(need, 1)}
    for cue in cues:
        ctx.check(cue["oid"] == pre and cue["cid"] == Hab.pre and set(cue["wids"]) == enabled, "conclusion about another", lambda: str(cue))
    kin = cues[0]["kin"] if cues else None

    def of(label):
        return sorted((x.wit, x.sn, x.dig) for x in cues[0][label])
    if different or split:
        ctx.check(kin == "keyStateDuplicitous", "duplicity not reported", lambda: str((kin, got)))
        ctx.check(set(different or split) <= set(of("dups")) and set(of("dups")) <= set(got), "who is duplicitous", lambda: str((of("dups"), got)))
        ctx.check(all(g in different or g[1] > sn for g in of("dups")), "watcher that agrees is called duplicitous", lambda: str((of("dups"), got)))
    elif ahead:
        ctx.check(kin != "keyStateDuplicitous", "duplicity where there is none", lambda: str(got))
        ctx.check(kin != "keyStateConsistent", "consistent though others are ahead")
        if kin == "keyStateUpdate":
            a = of("aheads")
            ctx.check(len(a) >= need, "update without enough watchers", lambda: str((need, got)))
            ctx.check(len({(s, d) for _, s, d in a}) == 1, "update of watchers that do not agree", lambda: str(a))
            ctx.check(cues[0]["sn"] == a[0][1] and all(g in ahead for g in a), "update to another event")
        else:
            ctx.check(not agreed, "update not reported", lambda: str((need, got)))
    elif behind:
        ctx.check(kin == "keyStateLagging" and of("behind") == sorted(behind), "lagging not reported", lambda: str((kin, got)))
    else:
        ctx.check(kin == "keyStateConsistent" and of("states") == sorted(got), "consistency not reported", lambda: str((kin, got)))
    ctx.reach(kin or "nothing")


def requests(ctx):
    """each request is answered"""
    db, pre, events = local(1)
    for i in range(2):
        report(db, pre, events, 1, "even", i)
    adj = Adjudicator(hby=None, hab=Hab(db))
    n = 0
    for i in range(3):
        toad = ctx.choose("t%d" % i, [None, "1", 2, 3])
        adj.msgs.append(dict(oid=pre) if toad is None else dict(oid=pre, toad=toad))
        n += toad != 3
    adj.performAdjudications()
    ctx.check(not adj.msgs, "requests left")
    ctx.check(len(adj.cues) == n and all(c["kin"] == "keyStateConsistent" for c in adj.cues), "requests without answer")
    ctx.reach("done")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(cname, fn, expect, weight=1, **params):
        out.append(dict(name=cname, fn=fn, params=params, expect=expect, weight=weight))
    for w in ((1, 4, 32) if T else (1, 4)):
        add("compare-%d" % w, differing, ["refused", "even", "ahead", "behind", "duplicitous"], width=w, weight=4)
    add("round-0", round_, ["keyStateConsistent", "refused"], n=0, sn=1, hows=[], extra=True)
    ALL = ["keyStateConsistent", "keyStateLagging", "keyStateDuplicitous", "keyStateUpdate", "refused"]
    add("round-1", round_, ALL, n=1, sn=2, hows=REPORTS, extra=True, weight=2)
    add("round-2", round_, ALL, n=2, sn=1, hows=REPORTS, extra=True, weight=4)
    add("round-3", round_, ALL, n=3, sn=1, hows=REPORTS if T else ["even", "other", "behind", "next", "next2", "later"], extra=False, weight=8)
    if T:
        add("round-4", round_, ALL, n=4, sn=1, hows=["even", "other", "behind", "next", "next2", "later"], extra=False, weight=12)
    add("requests", requests, ["done"])
    return out


BOUNDS = ("every pair of sequence numbers of up to 4 (32) hex digits; up to 3 (4) watchers, each silent, even, different, behind, or ahead in one of four ways, with watchers of another owner, of "
          "another identifier and not enabled; every threshold up to 6, given or not; sequences of 3 requests")
OUTSIDE = "how replies of watchers come to be recorded (C16); what a watcher behind said about earlier events; which conclusion is drawn while those ahead are too few"
ASSUMPTIONS = ["a watcher's report is the record its accepted reply leaves behind"]
