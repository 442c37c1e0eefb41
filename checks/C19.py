"""Real Revery and the real reply handlers of Kevery on a signer's log with rotations: sequences of signed replies about one
endpoint, whose dates, citing of establishment events, key verdicts and repetition vary.  Oracle: the best available
data rule, kept here as a small model of the reply in force and of the replies waiting."""
from checks.kel import *
from checks.C18 import cig
from keri.core.coring import Number, Diger, Prefixer, Dater
from keri.core.eventing import reply
from keri.core.routing import Revery
from keri.kering import ValidationError, UnverifiedReplyError, UntrustedKeyStateSource

DATES = ["2091-01-01T00:00:00.000000+00:00", "2091-01-01T01:00:00.000000+02:00", "2091-01-01T00:00:00.000001+00:00"]   # the second is the earliest
RANK = [1, 0, 2]
WHAT = dict(role="/end/role", loc="/loc/scheme", watch="/watcher")


class Signer:
    """log with keys 0, 1, 2, two keys (10+) or three (20+) from the start when two is 1 or 2, all needed"""

    def __init__(self, kvy, upto=0, two=False, base=0):
        self.kvy, self.two = kvy, two
        self.k = [[base + j] + [base + 10 * x + j for x in range(1, int(two) + 1)] for j in range(3)]
        st = str(int(two) + 1)
        a = incept(keys=keys(*self.k[0]), isith=st, ndigs=digs(*self.k[1]), nsith=st, code=MtrDex.Blake3_256, **JSON)
        b = rotate(a.pre, keys(*self.k[1]), a.said, sn=1, isith=st, ndigs=digs(*self.k[2]), nsith=st, **JSON)
        c = rotate(a.pre, keys(*self.k[2]), b.said, sn=2, isith=st, ndigs=digs(base + 5), nsith="1", **JSON)
        self.evs, self.pre, self.n = [a, b, c], a.pre, 0
        self.give(upto)

    def give(self, upto):
        old, ideal.ORACLE = ideal.ORACLE, lambda vk, msg, s: True
        for e in self.evs[self.n:upto + 1]:
            self.kvy.processEvent(e, [sig(x, n=90 + x) for x in range(int(self.two) + 1)])
        self.n = max(self.n, upto + 1)
        ideal.ORACLE = old


class Net:
    def __init__(self, upto=0, two=False, lax=True, local=False):
        self.db = open_db()
        self.rvy = Revery(db=self.db, lax=lax, local=local)
        self.kvy = Kevery(db=self.db, lax=lax, local=local, rvy=self.rvy)
        self.kvy.registerReplyRoutes(self.rvy.rtr)
        allgood()
        self.s = Signer(self.kvy, upto, two)


EID, AID = nosaid(7), nosaid(8)


def message(kind, pre, action, dt):
    """a reply of the signer about one endpoint; action 0 or 1"""
    if kind == "role":
        return reply(route="/end/role/" + ("cut", "add")[action], data=dict(cid=pre, role="watcher", eid=EID), stamp=dt, **JSON)
    if kind == "loc":
        return reply(route="/loc/scheme", data=dict(eid=pre, scheme="http", url="http://h%d:80/" % action), stamp=dt, **JSON)
    return reply(route="/watcher/%s/%s" % (AID, ("cut", "add")[action]), data=dict(cid=pre, oid=EID), stamp=dt, **JSON)


def shown(db, kind, pre):
    """(said in force, what is in force) as the user's of the store see it"""
    if kind == "role":
        k = (pre, "watcher", EID)
        d, r = db.eans.get(keys=k), db.ends.get(keys=k)
        return d and d.qb64, r and int(r.allowed)
    if kind == "loc":
        k = (pre, "http")
        d, r = db.lans.get(keys=k), db.locs.get(keys=k)
        return d and d.qb64, r and int(r.url == "http://h1:80/")
    k = (pre, AID, EID)
    d, r = db.wwas.get(keys=k), db.obvs.get(keys=k)
    return d and d.qb64, r and int(r.enabled)


def groups(db, said):
    """{sn: signature numbers} stored for a reply"""
    out = {}
    for k, s in db.tsgs.getTopItemIter(keys=(said, "")):
        out.setdefault(int(k[2], 16), []).append(bytes(s.raw)[0])
    return out


class Model:
    """best available data: later establishment event first, then later date; equal is not later"""

    def __init__(self):
        self.now = None         # (said, action, sn, rank)
        self.wait = []          # [said, action, rank, {sn: [step]}]
        self.sigs = {}

    def later(self, said, sn, rank):
        if self.now is None or self.now[0] == said:
            return True
        return (sn, rank) > (self.now[2], self.now[3])

    def take(self, said, action, sn, rank):
        if self.now is not None and self.now[0] == said:
            sn = max(sn, self.now[2])
        self.now = (said, action, sn, rank)
        self.wait = [w for w in self.wait if w[0] != said]


def trans(ctx, kind, acts, sns, comes, two=False):
    """acts and sns: per reply its action and the establishment event its signatures cite; the third event of the signer's
    log comes before reply number `comes`"""
    n = Net(upto=1, two=two)
    db, pre = n.db, n.s.pre
    m = Model()
    known = 1
    good = {}
    raws = {}

    def f(vk, msg, s):
        step = bytes(s)[0] - 50
        if step not in good or bytes(msg) != raws[step]:
            return False
        who = [key(k).raw for k in n.s.k[int(sns[step])]]
        return good[step] if bytes(vk) in who else False
    ideal.ORACLE = f

    def see():
        d, a = shown(db, kind, pre)
        ctx.check((d, a) == (m.now[:2] if m.now else (None, None)), "reply in force is not the latest verified one", lambda: (d, a, m.now))
        have = {k[0] for k, _ in db.rpys.getTopItemIter()}
        want = {w[0] for w in m.wait} | ({m.now[0]} if m.now else set())
        ctx.check(have == want, "replies kept", lambda: (have, want))
        ctx.check({k[0] for k, _ in db.sdts.getTopItemIter()} == want, "dates kept")
        if m.now:
            for g, ss in groups(db, m.now[0]).items():
                ctx.check(g == m.now[2], "signatures kept are those of the latest establishment event", lambda: (g, m.now))
                for x in ss:
                    ctx.check(good[x - 50], "signature kept does not verify")
        ctx.check({d.qb64 for _, d in db.rpes.getTopItemIter()} == {w[0] for w in m.wait}, "replies waiting")
    for j, (a, sn) in enumerate(zip(acts, sns)):
        if j == comes:
            n.s.give(2)
            known = 2
            escrows(ctx, n, m, good)
            see()
        a, sn = int(a), int(sn)
        dj = ctx.choose("d%d" % j, [0, 1, 2])
        r = message(kind, pre, a, DATES[dj])
        good[j], raws[j] = ctx.boolean("g%d" % j), bytes(r.raw)
        bad = ctx.boolean("b%d" % j) if j == len(acts) - 1 else False
        dig = nosaid(9) if bad else n.s.evs[sn].said
        later = m.later(r.said, sn, RANK[dj])
        had = m.now is not None and (m.now[0], m.now[2]) == (r.said, sn)       # its own signatures there already
        try:
            n.rvy.processReply(r, tsgs=[(Prefixer(qb64=pre), Number(num=sn), Diger(qb64=dig), [sig(i, n=50 + j) for i in range(len(n.s.k[sn]))])])
        except UnverifiedReplyError:
            ctx.check((later == False) if sn <= known else True, "verified later reply refused")
            if sn > known and later and not (m.now and m.now[0] == r.said):
                for w in m.wait:
                    if w[0] == r.said:
                        break
                else:
                    w = [r.said, a, RANK[dj], {}]
                    m.wait.append(w)
                w[3].setdefault((sn, dig), []).append(j)
        except ValidationError as ex:
            ctx.check(later, "stale reply")
            ctx.check(((good[j] == False) & (not had)) | bad, "verified later reply refused", lambda: repr(ex)[:200])
            ctx.check(sn <= known, "reply under keys not yet known is not kept")
        else:
            ctx.check((good[j] | had) & (sn <= known) & (not bad), "reply accepted without verified signatures")
            ctx.check(later, "reply accepted though not later than the one in force")
            m.take(r.said, a, sn, RANK[dj])
            ctx.reach("accepted")
        see()
    if comes >= len(acts):
        n.s.give(2)
        escrows(ctx, n, m, good)
        see()
    ctx.reach("end")


def escrows(ctx, n, m, good):
    """the waiting replies are tried in their order once the establishment event is there"""
    for said, a, rank, gs in list(m.wait):
        stay = False
        for (sn, dig), js in sorted(gs.items()):
            if not m.later(said, sn, rank):
                stay = True          # remains waiting until it times out
                continue
            ok = False
            for j in js:
                ok = ok | good[j]
            if dig == n.s.evs[sn].said and ok:
                m.take(said, a, sn, rank)
                stay = False
                ctx.reach("late")
            else:
                break
        m.wait = [w for w in m.wait if w[0] != said or stay]
    n.rvy.processEscrowReply()


def nontrans(ctx, kind, acts):
    """a nontransferable signer; other couples come along"""
    n = Net()
    db = n.db
    v = key(60, trans=False)
    pre = v.qb64
    m = Model()
    good, raws = {}, {}

    def f(vk, msg, s):
        x = bytes(s)[0]
        if x >= 90:
            return True
        return good[x - 50] if bytes(vk) == v.raw and bytes(msg) == raws[x - 50] else False
    ideal.ORACLE = f
    for j, a in enumerate(acts):
        a = int(a)
        dj = ctx.choose("d%d" % j, [0, 1, 2])
        r = message(kind, pre, a, DATES[dj])
        good[j], raws[j] = ctx.boolean("g%d" % j), bytes(r.raw)
        with_ = ctx.choose("with%d" % j, ["alone", "other", "key", "none"]) if j == len(acts) - 1 else "alone"
        mine = cig(v, 50 + j)
        cs = dict(alone=[mine], other=[cig(key(61, trans=False), 92), mine], key=[cig(key(60), 93), mine], none=[cig(key(61, trans=False), 94), cig(key(60), 95)])[with_]
        later = m.now is None or m.now[0] == r.said or RANK[dj] > m.now[3]
        ok = good[j] & later & (with_ != "none")
        try:
            n.rvy.processReply(r, cigars=cs)
        except UnverifiedReplyError:
            ctx.check(ok == False, "verified later reply refused")
        else:
            ctx.check(ok, "reply accepted though not verified or not later than the one in force")
            m.take(r.said, a, 0, RANK[dj])
            ctx.reach("accepted")
        d, act = shown(db, kind, pre)
        ctx.check((d, act) == (m.now[:2] if m.now else (None, None)), "reply in force is not the latest verified one")
        ctx.check({k[0] for k, _ in db.rpys.getTopItemIter()} == ({m.now[0]} if m.now else set()), "replies kept")
        for k, (vv, c) in db.scgs.getTopItemIter():
            ctx.check(k[0] == m.now[0] and vv.qb64 == pre, "couple kept")
            ctx.check(good[bytes(c.raw)[0] - 50], "couple kept does not verify")
    ctx.reach("end")


def partial(ctx, kind, order):
    """two or three keys, all needed; signatures come one by one, some of them bad, with a competing reply"""
    many = max(map(int, order)) + 1
    n = Net(two=many - 1)
    db, pre = n.db, n.s.pre
    r = message(kind, pre, 1, DATES[0])
    made = [ctx.boolean("g%d" % j) for j in range(len(order))]

    def f(vk, msg, s):
        x = bytes(s)[0]
        return made[x - 50] if bytes(msg) == bytes(r.raw) and bytes(vk) == key(n.s.k[0][int(order[x - 50])]).raw else False
    ideal.ORACLE = f
    done = False
    got = [False] * many
    both = lambda: got[0] & got[1] & (got[2] if many > 2 else True)
    for j, i in enumerate(order):
        i = int(i)
        try:
            n.rvy.processReply(r, tsgs=[(Prefixer(qb64=pre), Number(num=0), Diger(qb64=n.s.evs[0].said), [sig(i, n=50 + j)])])
            took = True
        except ValidationError:
            took = False
        got[i] = got[i] | made[j]
        ctx.check(both() if took else True, "reply accepted below its threshold")
        done = done or took
        if not took and not done:
            ctx.check((both() & made[j]) == False, "reply that meets its threshold is not accepted")
        d, a = shown(db, kind, pre)
        ctx.check(d == (r.said if done else None), "reply in force")
        if done:
            for g, ss in groups(db, r.said).items():
                for x in ss:
                    ctx.check(made[x - 50], "signature kept does not verify")
        n.rvy.processEscrowReply()
        ctx.check(shown(db, kind, pre) == (d, a), "accepted by a later pass")
    ctx.reach("accepted" if done else "not")


def own(ctx, kind, trans_):
    """replies of own identifiers count from protected sources only"""
    local = bool(ctx.boolean("local"))
    lax = bool(ctx.boolean("lax"))
    n = Net(lax=lax, local=local)
    v = key(60, trans=False)
    pre = n.s.pre if trans_ else v.qb64
    mine = ctx.boolean("own")
    if mine:
        n.db.prefixes.add(pre)
    good = ctx.boolean("good")
    r = message(kind, pre, 1, DATES[0])
    ideal.ORACLE = lambda vk, msg, s: good
    kw = dict(tsgs=[(Prefixer(qb64=pre), Number(num=0), Diger(qb64=n.s.evs[0].said), [sig(0, n=50)])]) if trans_ else dict(cigars=[cig(v, 50)])
    ok = good & (local or lax or not mine)
    try:
        n.rvy.processReply(r, **kw)
    except ValidationError:
        ctx.check(ok == False, "rightful reply refused")
        ctx.check(shown(n.db, kind, pre) == (None, None), "refused reply in force")
        ctx.reach("refused")
        return
    ctx.check(ok, "own reply accepted from an unprotected source or unverified")
    ctx.check(shown(n.db, kind, pre) == (r.said, 1), "record")
    ctx.reach("accepted")


def fields(ctx, kind):
    """replies with unknown roles, schemes, actions or routes are refused"""
    n = Net()
    pre = n.s.pre
    ideal.ORACLE = lambda vk, msg, s: True
    if kind == "role":
        route = ctx.choose("route", ["/end/role/add", "/end/role/cut", "/end/role/addx", "/end/role/", "/end/role/add/x", "/end/role", "/xend/role/add", "/END/role/add"])
        role = ctx.choose("role", ["controller", "watcher", "Controller", "", "admin"])
        ok = route in ("/end/role/add", "/end/role/cut") and role in ("controller", "watcher")
        data = dict(cid=pre, role=role, eid=EID)
        miss = ctx.choose("miss", [None, "cid", "role", "eid"])
    elif kind == "loc":
        route = ctx.choose("route", ["/loc/scheme", "/loc/schemes", "/loc", "/x/loc/scheme"])
        sch = ctx.choose("scheme", ["http", "https", "tcp", "ftp", ""])
        url = ctx.choose("url", ["http://a:1/", "https://a:1/", "tcp://a:1", "", "//a:1/"])
        us = url.split(":")[0] if "://" in url else ""
        ok = route == "/loc/scheme" and sch in ("http", "https", "tcp") and us in ("", sch)
        data = dict(eid=pre, scheme=sch, url=url)
        miss = ctx.choose("miss", [None, "eid", "scheme", "url"])
    else:
        act = ctx.choose("act", ["add", "cut", "addx", "", "add/x"])
        route = "/watcher/%s/%s" % (AID, act)
        ok = act in ("add", "cut")
        data = dict(cid=pre, oid=EID)
        miss = ctx.choose("miss", [None, "cid", "oid"])
    if miss:
        del data[miss]
        ok = False
    r = reply(route=route, data=data, stamp=DATES[0], **JSON)
    try:
        n.rvy.processReply(r, tsgs=[(Prefixer(qb64=pre), Number(num=0), Diger(qb64=n.s.evs[0].said), [sig(0, n=50)])])
    except (ValidationError, KeyError) as ex:
        ctx.check(not ok, "well formed reply refused", lambda: repr(ex)[:200])
        for x in (n.db.eans, n.db.lans, n.db.wwas, n.db.ends, n.db.locs, n.db.obvs, n.db.rpys):
            ctx.check(list(x.getTopItemIter()) == [], "refused reply left a trace")
        ctx.reach("refused")
        return
    ctx.check(ok, "malformed reply accepted")
    ctx.reach("accepted")


def notice(ctx, source, sn, have):
    """key state notices: trusted sources only, of the known event at that number, not behind the known key state"""
    n = Net(upto=-1, lax=False)
    db = n.db
    wv = key(60, trans=False)
    wats = wv.qb64 if source == "witness" else key(61, trans=False).qb64
    a = incept(keys=keys(0), ndigs=digs(1), nsith="1", wits=[wats], toad=1, code=MtrDex.Blake3_256, **JSON)
    other = Kevery(db=open_db("vt2"), lax=True)
    allgood()
    evs = [a, rotate(a.pre, keys(1), a.said, sn=1, ndigs=digs(2), nsith="1", wits=[wats], toad=1, **JSON)]
    evs.append(interact(a.pre, evs[1].said, sn=2, **JSON))
    for e in evs[:sn + 1]:
        other.processEvent(e, [sig(0, n=90)], wigers=[sig(0, n=91)])
    for e in evs[:have + 1]:
        n.kvy.processEvent(e, [sig(0, n=90)], wigers=[sig(0, n=91)])
    ksr = other.kevers[a.pre].state()
    ksr.dt = DATES[0]
    data = ksr._asdict()
    wrong = ctx.boolean("wrong")
    if wrong:
        data["d"] = nosaid(3)
    if source == "watcher":
        from keri.recording import HabitatRecord
        db.habs.pin(keys=("h",), val=HabitatRecord(hid=nosaid(5), watchers=[wv.qb64]))
    r = reply(route="/ksn/" + wv.qb64, data=data, stamp=DATES[0], **JSON)
    good, off = ctx.boolean("good"), ctx.boolean("off")
    ideal.ORACLE = lambda vk, msg, s: good
    ok = good & (not off) & (source != "stranger") & (sn >= have) & ((not wrong) or sn > have)
    try:
        n.rvy.processReply(r, cigars=[cig(key(62, trans=False) if off else wv, 50)])
    except (ValidationError, UntrustedKeyStateSource) as ex:
        ctx.check(ok == False, "rightful key state notice refused", lambda: repr(ex)[:200])
        if source == "stranger":
            ctx.check(isinstance(ex, UntrustedKeyStateSource), "untrusted source is told as such")
        ctx.check(list(db.ksns.getTopItemIter()) == [] and list(db.knas.getTopItemIter()) == [], "refused notice kept")
        ctx.reach("refused")
        return
    ctx.check(ok, "key state notice accepted from an untrusted source, unverified, behind or against the known log")
    d = db.knas.get(keys=(a.pre, wv.qb64))
    ctx.check(d.qb64 == data["d"] and db.ksns.get(keys=(d.qb64,)).s == "%x" % sn, "notice kept")
    ctx.reach("accepted")


def renotice(ctx, sn0, sn1):
    """of two key state notices of one source about an unknown identifier the later one stays"""
    n = Net(upto=-1)
    wv = key(60, trans=False)
    ideal.ORACLE = lambda vk, msg, s: True
    a = incept(keys=keys(0), ndigs=digs(1), nsith="1", code=MtrDex.Blake3_256, **JSON)
    other = Kevery(db=open_db("vt2"), lax=True)
    evs = [a, rotate(a.pre, keys(1), a.said, sn=1, ndigs=digs(2), nsith="1", **JSON)]
    evs.append(interact(a.pre, evs[1].said, sn=2, **JSON))
    rs = []
    ds = [ctx.choose("d0", [0, 1, 2]), ctx.choose("d1", [0, 1, 2])]
    data = []
    for e in evs:
        other.processEvent(e, [sig(0, n=90)])
        k = other.kevers[a.pre].state()
        data.append(k._asdict())
    now = None
    for j, s in enumerate((sn0, sn1)):
        d = dict(data[s])
        d["dt"] = DATES[ds[j]]
        if now is not None:
            ctx.known("ksn-replay", RANK[ds[j]] <= now[1])
        try:
            n.rvy.processReply(reply(route="/ksn/" + wv.qb64, data=d, stamp=DATES[ds[j]], **JSON), cigars=[cig(wv, 50 + j)])
        except ValidationError:
            ctx.check(now is not None and RANK[ds[j]] <= now[1], "later notice refused")
        else:
            ctx.check(now is None or RANK[ds[j]] > now[1], "key state notice accepted though not later than the one in force")
            now = (s, RANK[ds[j]])
    ctx.check(int(n.db.ksns.get(keys=(n.db.knas.get(keys=(a.pre, wv.qb64)).qb64,)).s, 16) == now[0], "notice in force is not the latest")
    ctx.reach("end")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, exp, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=exp, weight=weight))
    A = ["accepted", "end"]
    pats = [("01", "00", 9), ("10", "00", 9), ("01", "01", 9), ("01", "10", 9), ("11", "00", 9), ("11", "01", 9), ("11", "10", 9), ("10", "20", 9), ("11", "20", 9), ("11", "02", 9),
            ("10", "02", 9), ("11", "12", 1), ("10", "20", 1), ("111", "010", 9), ("101", "010", 9), ("110", "010", 9), ("011", "002", 9), ("101", "200", 2), ("101", "201", 9), ("110", "022", 9),
            ("110", "220", 9), ("112", "220", 9)]
    for acts, sns, comes in pats:
        acts = acts.replace("2", "1")
        for kind in WHAT:
            if len(acts) == 3 and kind != "role" and not T:
                continue
            add("trans-%s-%s-%s-%d" % (kind, acts, sns, comes), trans, ["end"] if set(sns) == {"2"} and comes >= len(sns) else A, 2 * len(acts), kind=kind, acts=acts, sns=sns, comes=comes)
    if T:
        for sns in ("000", "001", "011", "100", "101", "110", "111", "012", "021", "102", "120", "202", "212", "221", "222"):
            for acts in ("010", "011", "111"):
                add("trans-role-%s-%s-t" % (acts, sns), trans, A if set(sns) != {"2"} else ["end"], 9, kind="role", acts=acts, sns=sns, comes=2)
    for kind in WHAT:
        for acts in ("01", "11", "101") if kind == "role" or T else ("01", "11"):
            add("nontrans-%s-%s" % (kind, acts), nontrans, A, 3, kind=kind, acts=acts)
        for order in ("01", "001", "010", "0110", "012") + (("0102", "210", "0012") if T else ()):
            add("partial-%s-%s" % (kind, order), partial, ["accepted", "not"], 2, kind=kind, order=order)
        for t in (True, False):
            add("own-%s-%d" % (kind, t), own, ["accepted", "refused"], kind=kind, trans_=t)
        add("fields-%s" % kind, fields, ["accepted", "refused"], kind=kind)
    for source in ("self", "witness", "watcher", "stranger"):
        if source == "self":
            continue
        for sn in (0, 1, 2):
            for have in (-1, 0, 1, 2):
                acc = source != "stranger" and sn >= have
                add("notice-%s-%d-%d" % (source, sn, have), notice, ["refused"] + (["accepted"] if acc else []), source=source, sn=sn, have=have)
    for s0, s1 in [(0, 1), (1, 0), (2, 1), (1, 1), (0, 2)]:
        add("renotice-%d-%d" % (s0, s1), renotice, ["end"], sn0=s0, sn1=s1)
    return out


BOUNDS = "up to 3 (thorough: 3 in all citing orders) replies about one endpoint role, location or watched identifier; dates of three instants in differing zones, equal or not; signatures under any of three establishment events, one of which may come later; up to three keys; up to 3 nonindexed couples; key state notices at 3 event numbers from 3 sorts of sources"
OUTSIDE = "expiry of waiting replies by clock; key state notices signed by transferable sources; consumers of the records"
ASSUMPTIONS = ["signature scheme idealised"]
