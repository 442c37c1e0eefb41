"""Real Tevery/Tever and Reger: sequences of registry and credential transaction events of two registries (of an issuer and of
somebody else), with the seals that anchor them, the attached source couples, backers and their signatures varying.
Oracle: a small model of which event is in force where."""
import itertools
from checks.kel import *
from keri.core.coring import Number, Diger, MtrDex
from keri.core.signing import Salter
from keri.vdr import eventing as vdr
from keri.vdr.eventing import Tevery, Reger
from keri.kering import ValidationError, MissingAnchorError, OutOfOrderError, LikelyDuplicitousError, MissingWitnessSignatureError

vdr.print = lambda *pa: None
NONCE = [Salter(raw=bytes([i] * 16)).qb64 for i in range(4)]
CRED = [nosaid(30), nosaid(31)]
DT = "2091-01-01T00:00:00.000000+00:00"


class Owner:
    """an identifier with a log that is only ever anchors"""

    def __init__(self, db, base):
        self.db = db
        self.icp = incept(keys=keys(base), ndigs=digs(base + 1), code=MtrDex.Blake3_256, **JSON)
        self.pre = self.icp.pre
        self.evs = []
        self.put(self.icp)

    def make(self, *seals, est=False):
        if est:
            e = rotate(self.pre, keys(1), self.evs[-1].said, sn=len(self.evs), ndigs=digs(2), **JSON)
        else:
            e = interact(self.pre, self.evs[-1].said, sn=len(self.evs), data=[], **JSON)
        return body(e, said=Diger(raw=bytes([len(self.evs), self.icp.raw[60]] * 16), code=MtrDex.Blake3_256).qb64, a=list(seals))

    def put(self, e):
        """as the log holds an accepted event"""
        self.db.evts.put(keys=(self.pre, e.said), val=e)
        self.db.kels.add(keys=self.pre, on=e.sn, val=e.said)
        self.evs.append(e)
        return e


def seal(e):
    return dict(i=e.ked["i"], s=e.ked["s"], d=e.said)


class World:
    def __init__(self):
        self.db = open_db()
        self.reger = Reger(name="vt", temp=True, reopen=True, db=self.db)
        self.tvy = Tevery(reger=self.reger, db=self.db, lax=False, local=False)
        allgood()
        self.own = [Owner(self.db, 0), Owner(self.db, 20)]
        self.regs = [None, None]

    def inception(self, n, baks=None, toad=None):
        o = self.own[n]
        self.regs[n] = vdr.incept(o.pre, baks=baks, toad=toad, cnfg=[] if baks else ["NB"], nonce=NONCE[n], **JSON)
        return self.regs[n]

    def open(self, n, **kw):
        r = self.inception(n, **kw)
        a = self.own[n].put(self.own[n].make(seal(r)))
        self.give(r, a, sigs=kw.get("baks") and range(len(kw["baks"])))

    def give(self, e, a=None, sigs=None, couple=None, tvy=None):
        if a is not None:
            couple = a.sn, a.said
        return (tvy or self.tvy).processEvent(e, seqner=Number(num=couple[0]), saider=Diger(qb64=couple[1]), wigers=[sig(i, n=60 + i) for i in sigs or ()])

    def restart(self):
        """a new process on the same stores"""
        t = Reger.__new__(Reger)
        t.__dict__.update(self.reger.__dict__)
        t._tevers = type(self.reger._tevers)()
        t._tevers.reger, t._tevers.db = t, self.db
        self.reger = t
        self.tvy = Tevery(reger=t, db=self.db, lax=False, local=False)


def log(reger, pre):
    return [(on, d) for _, on, d in reger.tels.getAllItemIter(keys=pre)]


def waiting(db):
    return sorted((k[0], on, d) for k, on, d in db.getAllItemIter())


def make(w, what, reg, cred, prior):
    """iss/rev of a credential in a registry"""
    r = w.regs[reg].pre
    if what == "iss":
        return vdr.issue(CRED[cred], r, dt=DT, **JSON)
    e = vdr.revoke(CRED[cred], r, prior, dt=DT, **JSON)
    if what == "rev":
        return e
    sad = e.sad
    sad["s"] = what[3:]         # rev at another number
    return SerderKERI(sad=sad, makify=True)


def near(ctx, e, other):
    """a seal as the issuer may write it and whether it is one of e"""
    v = ctx.choose("seal", ["i", "s", "d", "none", "digest"])
    if v in ("none", "digest"):
        return [dict(d=e.said)] if v == "digest" else [], False
    s = ctx.integer("s", 0, 40) if v == "s" else int(e.ked["s"], 16)
    i = ctx.choose("i", [e.ked["i"], CRED[1], other]) if v == "i" else e.ked["i"]
    d = ctx.choose("d", [e.said, nosaid(2), other]) if v == "d" else e.said
    return [dict(i=i, s="%x" % s, d=d)], (s == int(e.ked["s"], 16)) & (i == e.ked["i"]) & (d == e.said)


class Model:
    def __init__(self, w):
        self.w, self.tel = w, {}            # tel: (credential, registry) -> [said]

    def of(self, cred, reg):
        return self.tel.setdefault((cred, reg), [])

    def state(self, cred, reg):
        return (None, "iss", "rev")[min(2, len(self.of(cred, reg)))]


def creds(ctx, steps, var, late=()):
    """steps: (what, registry, credential, prior); at step var the seal and the couple vary; registries in late are not there yet"""
    w = World()
    for n in (0, 1):
        if n not in late:
            w.open(n)
        else:
            w.inception(n)
    m = Model(w)
    for j, (what, reg, cred, prior) in enumerate(steps):
        t = m.of(cred, reg)
        p = {"last": t[-1] if t else nosaid(3), "first": t[0] if t else nosaid(3), "bad": nosaid(4), "-": None,
             "theirs": (m.of(cred, 1 - reg) or [nosaid(3)])[0]}[prior]
        e = make(w, what, reg, cred, p)
        sn = int(e.ked["s"], 16)
        o = w.own[reg]
        if j == var:
            sl, good = near(ctx, e, w.regs[reg].said)
            whole = bool(sl) and sl[0].get("i") == e.ked["i"] and sl[0]["d"] == e.said
            who = ctx.choose("owner", [0, 1])
            a = w.own[who].put(w.own[who].make(*sl, est=whole and ctx.choose("est", [False, True])))
            cs = ctx.integer("csn", 0, 6)
            cd = ctx.choose("cdig", [0, 1, 2])
            cd = [a.said, w.own[reg].evs[-2].said, nosaid(5)][cd]
            ok = good & (cs == a.sn) & (cd == a.said) & (who == reg)
            couple = cs, cd
        else:
            a = o.put(o.make(seal(e)))
            couple, ok = (a.sn, a.said), True
        before = {c: log(w.reger, c) for c in CRED + [r.pre for r in w.regs]}
        nxt = len(t)
        want = None
        if reg in late:
            want = OutOfOrderError
        elif sn > nxt:
            want = OutOfOrderError
        elif sn < nxt:
            want = LikelyDuplicitousError
        elif sn and p != t[-1]:
            want = ValidationError
        squat = bool(m.of(cred, 1 - reg)) and reg not in late
        try:
            w.give(e, couple=couple)
            ctx.check(want is None, "transaction event accepted", lambda: (j, want, e.ked))
            ctx.check(ok, "accepted without a seal of it in the issuer's log")
            t.append(e.said)
            ctx.check(log(w.reger, CRED[cred]) == before[CRED[cred]] + [(sn, e.said)], "event log of the credential")
            n, d = w.reger.ancs.get(keys=(CRED[cred], e.said))
            ctx.check((n.sn == a.sn) & (d.qb64 == a.said), "anchor kept with the event")
            before.pop(CRED[cred])
            ctx.reach("accepted")
        except MissingAnchorError:
            ctx.check((ok == False) & (want is None), "sealed event refused", lambda: (j, e.ked))
            ctx.check((CRED[cred], sn, e.said) in waiting(w.reger.taes), "event without seal is not kept")
            ctx.reach("refused")
        except ValidationError as ex:
            kind = type(ex) if type(ex) in (OutOfOrderError, LikelyDuplicitousError) else ValidationError
            if squat and not t and sn:
                pass        # has no issuance here: refused one way or the other
            elif not (squat and not t and ctx.known("foreign-issuance", kind is not want)):
                ctx.check(kind is want, "event refused", lambda: (j, want, repr(ex), e.ked))
                if want is OutOfOrderError:
                    ctx.check((CRED[cred], sn, e.said) in waiting(w.reger.oots), "event out of order is not kept")
            ctx.reach("refused")
        for c, l in before.items():
            ctx.check(log(w.reger, c) == l, "log changed by another's or a refused event", lambda: (j, c))
        for r in (0, 1):
            for c in (0, 1):
                if w.regs[r].pre not in w.reger.tevers:
                    continue
                s = w.reger.tevers[w.regs[r].pre].vcState(CRED[c])
                s = s and s.et
                ctx.check(s == m.state(c, r), "state of a credential in a registry", lambda: (j, r, c, s, m.tel))


def order(ctx, perm, rival):
    """R registry, i issuance, r revocation, k the seals in the issuer's log: in any order of arrival, each once, with rival events
    (unsealed issuance, revocation of something else) before the true ones when named in rival"""
    w = World()
    r, o = w.inception(0), w.own[0]
    iss = make(w, "iss", 0, 0, None)
    rev = make(w, "rev", 0, 0, iss.said)
    evs = []
    for e in (r, iss, rev):
        a = o.make(seal(e))
        o.evs.append(a)
        evs.append((e, a))
    bad = {"i": vdr.issue(CRED[0], r.pre, dt="2092" + DT[4:], **JSON), "r": vdr.revoke(CRED[0], r.pre, nosaid(3), dt=DT, **JSON)}
    n = ctx.choose("between", [0, 1, 2])     # how often what waits is looked at between arrivals
    side = ctx.choose("side", [0, 1])
    ad = ctx.choose("rival anchor", [0, 1])

    def give(e, a):
        try:
            w.give(e, couple=(a.sn, a.said))
        except ValidationError:
            pass
    for x in perm:
        if x == "k":
            for e in o.evs[1:]:
                w.db.evts.put(keys=(o.pre, e.said), val=e)
                w.db.kels.add(keys=o.pre, on=e.sn, val=e.said)
        else:
            if x in rival and side == 0:
                give(bad[x], evs["Rir".index(x)][1] if ad else evs[0][1])
            give(*evs[0 if x == "R" else 1 if x == "i" else 2])
            if x in rival and side == 1:
                give(bad[x], evs["Rir".index(x)][1] if ad else evs[0][1])
        for _ in range(n):
            w.tvy.processEscrows()
    for _ in range(3):
        w.tvy.processEscrows()
    ctx.check(r.pre in w.reger.tevers, "registry that waited is not there")
    ctx.check(log(w.reger, CRED[0]) == [(0, iss.said), (1, rev.said)], "transaction event that waited is lost", lambda: (log(w.reger, CRED[0]), waiting(w.reger.oots), waiting(w.reger.taes)))
    ctx.check(w.reger.tevers[r.pre].vcState(CRED[0]).et == "rev", "state in the end")
    ctx.check(not [x for x in waiting(w.reger.oots) + waiting(w.reger.taes) if x[2] in (r.said, iss.said, rev.said)], "accepted event still waits")
    ctx.reach("same")


def backed(w, toad, nb):
    baks = [wit(j) for j in range(nb)]
    return w.inception(0, baks=baks, toad=toad), baks


def bevent(w, ilk, reg, prior=None, vrt=None):
    """event of a registry with backers, its state for the issuance that of event vrt"""
    v = vrt or reg
    if ilk == "bis":
        return vdr.backerIssue(CRED[0], reg.pre, v.sn, v.said, dt=DT, **JSON)
    return vdr.backerRevoke(CRED[0], reg.pre, v.sn, v.said, prior, dt=DT, **JSON)


def backers(ctx, ilk, nb, toad, idx):
    """signatures of any makers at any stated positions: accepted exactly with toad distinct backers' good ones"""
    w = World()
    r, baks = backed(w, min(toad, nb), nb)
    o = w.own[0]
    e, force = r, baks
    if ilk != "vcp":
        w.give(r, o.put(o.make(seal(r))), sigs=range(nb))
    if ilk == "brv":
        b = bevent(w, "bis", r)
        w.give(b, o.put(o.make(seal(b))), sigs=range(nb))
        e = bevent(w, "brv", r, prior=b.said)
    elif ilk == "bis":
        e = bevent(w, "bis", r)
    elif ilk == "vrt":
        cut = [baks[0]] if nb > 1 else []
        force = baks[1:] + [wit(7)] if nb > 1 else baks + [wit(7)]
        e = vdr.rotate(r.pre, r.said, sn=1, toad=toad, baks=baks, cuts=cut, adds=[wit(7)], **JSON)
    sealed = ctx.boolean("sealed")
    a = o.put(o.make(seal(e))) if bool(sealed) else o.put(o.make())
    n = len(idx)
    g = [ctx.boolean("g%d" % j) for j in range(n)]

    def f(vk, msg, s):
        j = bytes(s)[0] - 60
        if bytes(msg) != bytes(e.raw) or int(idx[j]) >= len(force):
            return False
        return g[j] if bytes(vk) == bytes(Verfer(qb64=force[int(idx[j])]).raw) else False
    ideal.ORACLE = f
    cnt = 0
    for k in range(len(force)):
        some = False
        for x, y in zip(idx, g):
            some = some | ((x == k) & y)
        cnt = cnt + some * 1
    try:
        w.tvy.processEvent(e, seqner=Number(num=a.sn), saider=Diger(qb64=a.said), wigers=[sig(int(x), n=60 + j) for j, x in enumerate(idx)])
        ctx.check(sealed, "accepted without its seal")
        ctx.check(cnt >= toad, "accepted with too few backers", lambda: (idx, g))
        ctx.reach("accepted")
        key = (CRED[0] if ilk in ("bis", "brv") else r.pre, e.said)
        for s in w.reger.tibs.get(keys=key):
            ctx.check(g[bytes(s.raw)[0] - 60], "backer signature kept does not verify")
        if ilk == "vrt":
            t = w.reger.tevers[r.pre]
            ctx.check((t.sn, list(t.baks), t.toad) == (1, force, toad), "backers in force")
    except MissingAnchorError:
        ctx.check(sealed == False, "sealed event refused")
        ctx.reach("refused")
    except MissingWitnessSignatureError:
        ctx.check(sealed, "missing seal not reported")
        ctx.check((cnt < toad) & sealed, "refused with enough backers", lambda: (idx, g))
        ctx.check((key0 := (CRED[0] if ilk in ("bis", "brv") else r.pre)) and (key0, e.sn, e.said) in waiting(w.reger.twes), "event with too few backers is not kept")
        ctx.reach("refused")


def orderb(ctx, perm, rival):
    """as order with backers: R registry, v its rotation, i issuance under the rotation, r revocation, k the log; each with the
    signatures of its backers; rival: a rotation never sealed to other backers comes first, and an issuance that names it"""
    w = World()
    r, baks = backed(w, 2, 2)
    o = w.own[0]
    v = vdr.rotate(r.pre, r.said, sn=1, toad=2, baks=baks, cuts=[baks[0]], adds=[wit(7)], **JSON)
    i = bevent(w, "bis", r, vrt=v)
    e = bevent(w, "brv", r, prior=i.said, vrt=v)
    evs = {}
    for k, x in zip("Rvir", (r, v, i, e)):
        a = o.make(seal(x))
        o.evs.append(a)
        evs[k] = x, a
    vx = vdr.rotate(r.pre, r.said, sn=1, toad=1, baks=baks, cuts=baks, adds=[wit(8)], **JSON)
    ix = bevent(w, "bis", r, vrt=vx)
    if rival == 2:      # the issuer seals the issuance all the same
        ax = o.make(seal(ix))
        o.evs.append(ax)
    n = ctx.choose("between", [0, 1, 2])

    def give(e, a):
        try:
            w.give(e, couple=(a.sn, a.said), sigs=range(3))
        except ValidationError:
            pass
    ideal.ORACLE = lambda vk, msg, s: bytes(s)[0] - 60 < 2 or bytes(vk) == bytes(Verfer(qb64=wit(8)).raw)
    for x in perm:
        if x == "k":
            for y in o.evs[1:]:
                w.db.evts.put(keys=(o.pre, y.said), val=y)
                w.db.kels.add(keys=o.pre, on=y.sn, val=y.said)
        else:
            if x == "v" and rival:
                give(vx, evs["v"][1])
                give(ix, ax if rival == 2 else evs["i"][1])
            give(*evs[x])
        for _ in range(n):
            w.tvy.processEscrows()
    for _ in range(4):
        w.tvy.processEscrows()
    ctx.check(log(w.reger, r.pre) == [(0, r.said), (1, v.said)], "registry event that waited is lost or rival in its place", lambda: (log(w.reger, r.pre), waiting(w.reger.oots), waiting(w.reger.taes)))
    ctx.check(log(w.reger, CRED[0]) == [(0, i.said), (1, e.said)], "transaction event that waited is lost or rival in its place", lambda: (log(w.reger, CRED[0]), i.said, ix.said, waiting(w.reger.oots), waiting(w.reger.taes)))
    ctx.reach("same")


def rotation(ctx, cuts, adds):
    """cuts and adds of backers, threshold any"""
    w = World()
    r, baks = backed(w, 1, 2)
    o = w.own[0]
    w.give(r, o.put(o.make(seal(r))), sigs=range(2))
    toad = ctx.choose("toad", [0, 1, 2, 3, 4, 5])
    sn = ctx.choose("sn", [0, 1, 2])
    prior = ctx.choose("p", [r.said, nosaid(3)])
    e = vdr.rotate(r.pre, prior, sn=1, toad=1, baks=baks, cuts=[], adds=[], **JSON)
    sad = dict(e.sad)
    sad.update(br=[wit(c) for c in cuts], ba=[wit(c) for c in adds], s="%x" % sn)
    sad["bt"] = "%x" % int(toad)
    e = SerderKERI(sad=sad, makify=True)
    new = [b for b in baks if b not in sad["br"]] + sad["ba"]
    ok = len(set(cuts)) == len(cuts) and len(set(adds)) == len(adds) and all(c < 2 for c in cuts) and not (set(adds) & {0, 1})
    ok = ok and ((1 <= int(toad) <= len(new)) if new else int(toad) == 0) and sn == 1 and prior == r.said
    a = o.put(o.make(seal(e)))
    try:
        w.give(e, a, sigs=range(len(new)))
        ctx.check(ok, "rotation of backers accepted", lambda: (sad, new))
        t = w.reger.tevers[r.pre]
        ctx.check((t.sn, list(t.baks), t.toad, t.serder.said) == (1, new, int(toad), e.said), "backers in force")
    except ValidationError as ex:
        ctx.check(not ok, "rotation of backers refused", lambda: (repr(ex), sad))
        t = w.reger.tevers[r.pre]
        ctx.check((t.sn, list(t.baks), t.toad, t.serder.said) == (0, baks, 1, r.said), "refused rotation changes the registry")


def restart(ctx, hist, then, eo):
    """after a restart the registry is as it was and takes and refuses the same events"""
    def run(again):
        w = World()
        r, baks = backed(w, 1, 2)
        r = w.regs[0] = vdr.incept(w.own[0].pre, baks=baks, toad=1, cnfg=["EO"] if eo else [], nonce=NONCE[0], **JSON)
        o = w.own[0]
        w.give(r, o.put(o.make(seal(r))), sigs=range(2))
        last, tel = r, []

        def event(h):
            nonlocal last
            if h == "vcp":
                return r, 2
            if h == "v":
                n = last.sn + 1
                return vdr.rotate(r.pre, last.said, sn=n, toad=2, baks=baks, cuts=[], adds=[wit(7 + n)], **JSON), 3 + last.sn
            e = bevent(w, "bis" if h == "i" else "brv", r, prior=tel[-1].said if tel else nosaid(3), vrt=last)
            return e, 2 + last.sn

        def step(h):
            nonlocal last
            e, n = event(h)
            err = None
            try:
                w.give(e, o.put(o.make(seal(e))), sigs=range(n))
                if h == "v":
                    baks.append(wit(7 + e.sn))
                    last = e
                else:
                    tel.append(e)
            except ValidationError as ex:
                err = type(ex).__name__
            return err
        for h in hist:
            step(h)
            if again and ctx.boolean("restart %d" % len(tel)):
                w.restart()
        if again:
            w.restart()
        errs = [step(then)]
        t = w.reger.tevers[r.pre]
        st = t.vcState(CRED[0])
        return errs, t.sn, t.serder.said, list(t.baks), t.toad, t.ilk, t.noBackers, t.estOnly, t.pre, st and (st.et, st.s, st.d), log(w.reger, r.pre), log(w.reger, CRED[0])
    a, b = run(False), run(True)
    ctx.check(a == b, "registry after a restart", lambda: (a, b))


ISS, REV = ("iss", 0, 0, "-"), ("rev", 0, 0, "last")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=expect, weight=weight))
    both = ["accepted", "refused"]
    seqs = dict(iss=[ISS], rev=[ISS, REV], again=[ISS, ISS], revagain=[ISS, REV, REV], reiss=[ISS, REV, ISS], early=[("rev", 0, 0, "bad")], badprior=[ISS, ("rev", 0, 0, "bad")],
                foreign=[ISS, ("rev", 1, 0, "theirs")], squat=[("iss", 1, 0, "-"), ISS, REV], foreigniss=[ISS, ("iss", 1, 0, "-")], other=[ISS, ("iss", 1, 1, "-"), ("rev", 1, 1, "last"), REV],
                claimed=[("iss", 1, 0, "-"), ("rev", 1, 0, "last")], skip=[ISS, ("rev2", 0, 0, "last")], twice=[ISS, REV, ("rev2", 0, 0, "first")])
    for n, s in seqs.items():
        for v in range(len(s)) if len(s) < 3 or T else [len(s) - 1]:
            e = ["refused"] if n == "early" else ["accepted"] if n in ("squat", "foreigniss") else both
            add("%s-%d" % (n, v), creds, e, steps=s, var=v, weight=len(s))
    for perm in itertools.permutations("Rirk") if T else ["Rirk", "riRk", "irkR", "rkRi", "kriR", "ikrR", "Rrik", "Rkri", "kRri"]:
        for rival in ("", "i", "r", "ir"):
            add("order-%s-%s" % ("".join(perm), rival), order, ["same"], perm="".join(perm), rival=rival)
    for perm in itertools.permutations("Rvirk") if T else ["Rvirk", "rivRk", "kRvir", "krivR", "Rirvk", "kRirv", "vRkri", "ivrkR"]:
        for rival in (0, 1, 2):
            add("orderb-%s-%d" % ("".join(perm), rival), orderb, ["same"], perm="".join(perm), rival=rival)
    for ilk in ("vcp", "bis", "brv", "vrt"):
        for nb in (1, 2, 3):
            for toad in range(1, nb + 1 + (ilk == "vrt" and nb == 1)):
                for idx in itertools.combinations_with_replacement((*range(nb), 5), nb + (nb < 3)):
                    if T or nb < 3 or idx[0] == 0:
                        can = len({j for j in idx if j < nb + (ilk == "vrt" and nb == 1)}) >= toad
                        add("backers-%s-%d-%d-%s" % (ilk, nb, toad, "".join(map(str, idx))), backers, both if can else ["refused"], ilk=ilk, nb=nb, toad=toad, idx=idx)
    for cuts in ((), (0,), (0, 1), (1, 1), (5,)):
        for adds in ((), (7,), (0,), (7, 7), (7, 8)):
            add("rotate-%s-%s" % ("".join(map(str, cuts)), "".join(map(str, adds))), rotation, [], cuts=cuts, adds=adds)
    for hist in ("", "v", "i", "vi", "ir", "vv", "iv"):
        for then in ("v", "i", "r", "vcp"):
            add("restart-%s-%s" % (hist, then), restart, [], hist=hist, then=then, eo=hist == "v")
    return out


BOUNDS = ("two registries (the issuer's and another's) and two credentials; 14 sequences of up to three transaction events (issue, revoke, "
          "again, out of order, wrong prior, the other registry's), at one of them the seal is near (another identifier, number 0..40, digest, "
          "or none), in either owner's log, and the attached couple any number 0..6 and one of three digests; arrival orders of registry, "
          "issuance, revocation and log with rivals (quick 9 of 24 orders, thorough all), with backers and a rotation of the registry "
          "(quick 8 of 120, thorough all); 1 to 3 backers, any threshold, up to 3 signatures at each multiset of positions, verdicts "
          "symbolic; rotations of two backers with 25 sets of cuts and adds and any threshold 0..5; restarts after any of two events")
OUTSIDE = ("more than one seal in an anchoring event (refused); events with too few backers are kept but never looked at again; reply "
           "messages of transaction state; queries")
ASSUMPTIONS = ["signatures are verdicts that are consistent per key, message and signature", "the issuer's log holds what C11 to C13 accept",
               "digests of distinct events differ"]
