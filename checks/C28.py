"""Real Exchanger (and the handlers of both IPEX versions) fed with deliveries of exchange messages whose signatures' verdicts, cited
establishment events, attachments, times and order are solver variables or exhaustive choices, with escrow processing between.
Oracle: a model of who signed what to which threshold; the answer to each step is compared, and all that is kept."""
import itertools
from datetime import timedelta
from types import SimpleNamespace
import ideal
from checks.kel import *
from keri.core.coring import Number, Diger, Prefixer, Dater, Texter, Pather, Seqner
from keri.core.coring import Cigar
from keri.core.eventing import exchange
from keri.kering import ValidationError, MissingSignatureError
from keri.peer import exchanging
from keri.peer.exchanging import Exchanger, specialExchange, cloneMessage
from keri.acdc import ipexing
from keri.vc import protocoling

DT = "2021-01-01T00:00:00.000000+00:00"


class Now:
    def __init__(self, s):
        self.s = s

    def __sub__(self, other):
        assert other == exchanging.helping.fromIso8601(DT)
        return Gap(self.s)


class Gap:
    def __init__(self, s):
        self.s = s

    def __gt__(self, d):
        assert isinstance(d, timedelta)
        return self.s > int(d.total_seconds())


class Handler:
    def __init__(self, route, ok=True):
        self.resource, self.seen, self.ok = route, [], ok

    def verify(self, serder, **kwa):
        if isinstance(self.ok, Exception):
            raise self.ok
        return self.ok

    def handle(self, serder, **kwa):
        self.seen.append((serder, kwa))


class World:
    def __init__(self, handlers):
        self.db = open_db()
        self.kvy = Kevery(db=self.db, lax=True, local=False)
        self.hby = SimpleNamespace(db=self.db, kevers=self.db.kevers)
        self.exc = Exchanger(self.hby, handlers=handlers)
        exchanging.Dater = lambda: Dater(dts=DT)
        self.real = exchanging.helping
        self.clock(0)

    def clock(self, s):
        from keri.help import helping
        exchanging.helping = SimpleNamespace(nowUTC=lambda: Now(s), fromIso8601=helping.fromIso8601, klasify=helping.klasify)

    def event(self, e, n=3):
        old = ideal.ORACLE
        allgood()
        self.kvy.processEvent(e, sigers=[sig(i) for i in range(n)])
        ideal.ORACLE = old


def sender():
    """three keys, two needed; inception, interaction, rotation"""
    i = incept(keys=keys(0, 1, 2), ndigs=digs(3, 4, 5), isith="2", nsith="2", code=MtrDex.Blake3_256, **JSON)
    x = interact(i.pre, i.said, sn=1, **JSON)
    r = rotate(i.pre, keys=keys(3, 4, 5), dig=x.said, sn=2, isith="2", ndigs=digs(6, 7, 8), nsith="2", **JSON)
    return [i, x, r]


def attached(*labels):
    return [bytearray(Pather(parts=[l[0], l[1:]]).qb64b + b"-AAA" * (j + 1)) for j, l in enumerate(labels)]


def kept(w, m):
    """all that is stored of a message"""
    db, d = w.db, m.said
    return (db.exns.get(keys=(d,)) is not None, [(k[1:], s.qb64) for k, s in db.esigs.getTopItemIter(keys=(d, ""))],
            [(v.qb64, c.qb64) for v, c in db.ecigs.get(keys=(d,))], list(db.epath.get(keys=(d,))), [t.raw for t in db.essrs.get(keys=(d,))],
            list(db.enst.get(keys=(d,))))


def deliveries(ctx, plan, route="/a/b", essr=None):
    """plan: steps: (cited event, positions, labels of attachments) a delivery, an int that event of the sender's, "e" escrow processing"""
    h = Handler("/a/b")
    w = World([h])
    evs = sender()
    pre = evs[0].pre
    other = incept(keys=keys(30), ndigs=digs(31), code=MtrDex.Blake3_256, **JSON)
    w.event(other, 1)
    body = b"hidden content...."
    if essr:
        m, _ = specialExchange(sender=pre, receiver=other.pre, route=route, diger=Diger(ser=body), stamp=DT)
    else:
        m, _ = specialExchange(sender=pre, receiver=other.pre, route=route, attributes=dict(x=1), stamp=DT)
    good, groups = {}, {}          # verdicts; waiting: event: {position: verdict}
    n = 0

    def f(vk, msg, s):
        if bytes(msg) != bytes(m.raw):
            return False
        k, p = good.get(bytes(s)[0], (None, False))
        return p if k == bytes(vk) else False
    ideal.ORACLE = f
    top, waiting, saved, handled = -1, False, False, 0
    path, content, who = [], None, {}
    t = 0

    def met(vs):
        return sum(v * 1 for v in vs.values()) >= 2 if vs else False
    for j, st in enumerate(plan):
        if isinstance(st, int):
            w.event(evs[st])
            top = st
            continue
        before = kept(w, m)
        if st[0] == "e":
            if len(st) > 1:
                t = ctx.integer("t%d" % j, 0, 40)
            w.clock(t)
            w.exc.processEscrow()
            if waiting:
                if bool(t > 10) if len(st) > 1 else t > 10:
                    waiting, groups, path, content = False, {}, [], None
                    ctx.check(kept(w, m) == (False, [], [], [], [], []), "rest of what was given up", lambda: kept(w, m))
                    ctx.reach("stale")
                else:
                    ok = bool(groups) and all(c <= top for c in groups)
                    for vs in groups.values():
                        ok = ok & met(vs)
                    if bool(ok):
                        waiting, saved = False, True
                        handled += 1
                        who = dict(groups)
                        ctx.reach("from escrow")
        else:
            c, pos, labels = st
            tsgs = []
            sigers = []
            est = evs[0 if c in (0, "wrong", "foreign", "none", "ixn") else c]
            for p in pos:
                n += 1
                good[n] = (bytes(est.verfers[p].raw), ctx.boolean("good%d.%d" % (j, p)))
                sigers.append(sig(p, n=n))
            if c != "none":
                tsgs = [(Prefixer(qb64=other.pre if c == "foreign" else pre), Number(num=1 if c == "ixn" else est.sn),
                         Diger(qb64=other.said if c == "foreign" else nosaid(3) if c == "wrong" else evs[1].said if c == "ixn" else est.said), sigers)]
            g = {}
            for k, p in enumerate(pos):
                g[p] = g.get(p, False) | good[n - len(pos) + 1 + k][1]
            kw = dict(essrs=[Texter(raw=body if essr != "wrong" else b"other content!")] if essr and "E" in labels else [])
            ptds = attached(*[l for l in labels if l != "E"])
            try:
                w.exc.processEvent(serder=m, tsgs=tsgs, cigars=None, ptds=ptds, **kw)
                done = True
            except MissingSignatureError:
                done = False
            except (ValidationError, TypeError) as ex:
                done = None
            if c in ("foreign", "wrong", "ixn"):
                if c == "ixn" and top < 1 or c == "wrong" and top < 0:
                    pass
                else:
                    ctx.check(not done, "signed under what is no establishment event of the sender's")
                    ctx.check(kept(w, m) == before, "refused message changes what is kept")
                    ctx.check(len(h.seen) == handled, "refused message handled")
                    continue
            good_ = c != "none" and c in (0, 2) and bool((c <= top) & met(g))
            if good_ and essr and ("E" not in labels or essr == "wrong"):
                ctx.check(done is None and not saved, "content that is not the one named is taken")
                ctx.check(len(h.seen) == handled, "handled without the content named")
                ctx.check(kept(w, m)[0] == False, "kept without the content named")
                ctx.reach("content missing")
                return
            ctx.check(done == good_, "answer to a delivery", lambda: (done, good_))
            if good_:
                handled += 1
                path = [bytes(x) for x in ptds] or path
                who = {c: g} if not saved else {**who, c: {**{k: v for k, v in who.get(c, {}).items()}, **g}}
                saved, waiting = True, False
                groups = {}
                if "E" in labels:
                    content = body
                ctx.reach("at once")
            elif not saved:
                if not waiting:
                    t0 = t
                waiting = True
                path = [bytes(x) for x in ptds] or path
                if "E" in labels:
                    content = body if essr != "wrong" else b"other content!"
                if c != "none":
                    vs = groups.setdefault(c, {})
                    for p, v in g.items():
                        vs[p] = vs.get(p, False) | v
                ctx.reach("waits")
            else:
                ctx.check(kept(w, m) == before, "incomplete copy changes the saved message", lambda: (before, kept(w, m)))
                ctx.reach("incomplete copy")
        k = kept(w, m)
        ctx.check(k[0] == saved, "saved", lambda: (k[0], saved, j))
        ctx.check(len(h.seen) == handled, "number of times it was handled", lambda: (len(h.seen), handled, j))
        ctx.check([x.encode() for x in k[3]] == path, "attachments kept", lambda: (k[3], path))
        ctx.check(k[4] == ([content] if content else []), "content kept")
        if saved:
            ctx.check(h.seen[-1][0].said == m.said, "another message handled")
            if not isinstance(st, int) and handled and st[0] != "e" and good_:
                want = [(x[1:], y) for x, y in zip([l for l in st[2] if l != "E"], [b"-AAA" * (q + 1) for q in range(9)]) if x[0] == "e"]
                ctx.check([(np.rparts[0], bytes(a)) for np, a in h.seen[-1][1]["attachments"]] == want, "attachments handed on", lambda: (h.seen[-1][1], want))
                if essr:
                    ctx.check(h.seen[-1][1].get("essr") == body, "content handed on")
            for (p, sn, d), q in k[1]:
                s = Siger(qb64=q)
                ctx.check(p == pre and (int(sn, 16), d) in ((0, evs[0].said), (2, evs[2].said)), "signature kept under another event")
                ctx.check(good[bytes(s.raw)[0]][1], "signature kept does not verify")
            for c, vs in who.items():
                ctx.check(met({Siger(qb64=q).index: good[bytes(Siger(qb64=q).raw)[0]][1] for (p, sn, d), q in k[1] if int(sn, 16) == c}), "signatures kept fall short")
            s, pathed = cloneMessage(w.hby, m.said)
            ctx.check(s is not None and s.raw == m.raw, "saved message does not come back")
    ctx.check(bool(w.db.epse.get(keys=(m.said,))) == waiting, "waiting", lambda: waiting)
    ctx.reach("end")


def couples(ctx, who, nsigs, group):
    """signatures with their keys; who: nontransferable sender, transferable sender of one key, someone else"""
    h = Handler("/a/b")
    w = World([h])
    nt = key(50, trans=False)
    one = incept(keys=keys(40), ndigs=digs(41), **JSON)          # prefix is its key
    w.event(one, 1)
    pre = one.pre if who == "trans" else nt.qb64
    vk = Verfer(qb64=keys(40)[0]) if who == "trans" else key(51, trans=False) if who == "other" else nt
    m, _ = specialExchange(sender=pre, receiver=nosaid(1), route="/a/b", attributes=dict(x=1), stamp=DT)
    good = {j: ctx.boolean("good%d" % j) for j in range(1, nsigs + 1)}
    gg = ctx.boolean("group good") if group else False
    ideal.ORACLE = lambda k, msg, s: (gg if bytes(s)[0] == 99 else good[bytes(s)[0]]) if bytes(msg) == bytes(m.raw) else False
    cigars = [Cigar(raw=bytes([j] * 64), verfer=vk) for j in good]
    tsgs = [(Prefixer(qb64=pre), Number(num=0), Diger(qb64=one.said), [sig(0, n=99)])] if group else None
    try:
        w.exc.processEvent(serder=m, tsgs=tsgs, cigars=cigars)
        done = True
    except MissingSignatureError:
        done = False
    want = gg
    if not group:
        want = who == "nontrans" and nsigs > 0
        for v in good.values():
            want = want & v
    ctx.check(want == done, "answer to signatures with their keys", lambda: (done, want))
    ctx.check(len(h.seen) == done * 1, "handled")
    k = kept(w, m)
    ctx.check(k[0] == done, "saved")
    for v, c in k[2]:
        ctx.check(done and not group and good[bytes(Cigar(qb64=c).raw)[0]], "signature kept does not verify")
    if done:
        s, _ = cloneMessage(w.hby, m.said)
        ctx.check(s is not None and s.raw == m.raw, "saved message does not come back")
    ctx.reach("taken" if done else "refused")


def behaviors(ctx, route):
    """verification of the behavior decides"""
    how = ctx.choose("verify", ["yes", "no", "error", "attribute", "none"])
    ok = dict(yes=True, no=False, error=ValueError("x"), attribute=AttributeError("x"), none=True)[how]
    h = Handler("/a/b", ok)
    if how == "none":
        h = SimpleNamespace(resource="/a/b", seen=[])
        h.handle = lambda serder, **kw: h.seen.append(serder)
    w = World([h])
    allgood()
    nt = key(50, trans=False)
    m, _ = specialExchange(sender=nt.qb64, receiver=nosaid(1), route=route, attributes=dict(x=1), stamp=DT)
    try:
        w.exc.processEvent(serder=m, cigars=[Cigar(raw=bytes(64), verfer=nt)])
        raised = False
    except (ValueError, AttributeError):
        raised = True
    mine = route == "/a/b"
    refused = mine and how in ("no", "error", "attribute")
    ctx.check(kept(w, m)[0] == (not refused), "kept against the verdict of the behavior", how)
    ctx.check(len(h.seen) == (mine and not refused), "handled against the verdict of the behavior", how)
    ctx.reach("refused" if refused else "taken")


# ---- IPEX

VERBS = ("apply", "offer", "agree", "grant", "admit", "spurn")
AFTER = {1: dict(offer=("apply",), agree=("offer",), grant=("agree",), admit=("grant",), spurn=("apply", "offer", "agree", "grant")),
         2: dict(offer=("apply",), agree=("offer",), grant=("agree",), admit=("grant",), spurn=("apply", "offer", "agree"))}


def ipex(ctx, version, steps, first=None):
    """a message of each verb in turn, its prior chosen among those before, none and an unknown one"""
    notes = []
    nt = SimpleNamespace(add=lambda attrs: notes.append(attrs))
    mod = protocoling if version == 1 else ipexing
    exc = World([])
    hs = [mod.IpexHandler(resource="/ipex/" + v, hby=exc.hby, notifier=nt) for v in VERBS]
    for h in hs:
        exc.exc.addHandler(h)
    allgood()
    a, b = key(50, trans=False), key(51, trans=False)
    made, answered = [], set()
    for j in range(steps):
        verb = first if first and not j else ctx.choose("verb%d" % j, list(VERBS) if j else ["apply", "offer", "grant", "agree"])
        k = ctx.choose("prior%d" % j, ["none", "unknown"] + list(range(len(made))))
        who = a if j % 2 == 0 else b
        prior = "" if k == "none" else nosaid(2) if k == "unknown" else made[k][0].said
        odd = ctx.choose("route%d" % j, ["", "odd"]) if j == 0 and not first else ""
        route = ("/other/" if odd else "/ipex/") + verb
        attrs = dict(m="t%d" % j)
        nests = []
        if version == 2 and verb in ("offer", "grant"):
            art = ctx.choose("artifact%d" % j, ["right", "missing", "other", "two"]) if j == steps - 1 else "right"
            x = interact(nosaid(5), nosaid(6), sn=1, **JSON)
            y = interact(nosaid(5), nosaid(6), sn=2, **JSON)
            attrs["acdc"] = x.said
            nests = [dict(serder=s) for s in dict(right=[x], missing=[], other=[y], two=[x, y])[art]]
        else:
            art = "right"
            if version == 2 and j == steps - 1 and ctx.boolean("extra%d" % j):
                nests, art = [dict(serder=interact(nosaid(5), nosaid(6), sn=1, **JSON))], "two"
        kw = dict(sender=who.qb64, receiver=(b if who is a else a).qb64, prior=prior, route=route, attributes=attrs, stamp=DT)
        m = specialExchange(**kw)[0] if version == 1 else exchange(pvrsn=Vrsn_2_0, gvrsn=Vrsn_2_0, kind=Kinds.json, **kw)
        saw = len(notes)
        exc.exc.processEvent(serder=m, cigars=[Cigar(raw=bytes(64), verfer=who)], nests=nests)
        if odd:
            good = True
        elif k == "none":
            good = verb in ("apply", "offer", "grant")
        elif k == "unknown" or verb == "apply":
            good = False
        else:
            p, pv, taken = made[k]
            good = taken and pv in AFTER[version][verb] and k not in answered
        good = good and (bool(odd) or art == "right")
        if good and not odd and isinstance(k, int):
            answered.add(k)
        ctx.check((exc.db.exns.get(keys=(m.said,)) is not None) == good, "exchange of credentials out of turn", lambda: (verb, k, art, good))
        ctx.check(len(notes) - saw == (good and not odd), "notice of an exchange", lambda: (verb, k, good))
        if good and not odd:
            ctx.check(notes[-1]["d"] == m.said and notes[-1]["r"] == "/exn" + route, "notice of another exchange")
        made.append((m, ("odd " if odd else "") + verb, good))
    ctx.reach("end")


def nested(ctx, split):
    """embedded artifacts come back the same from escrow"""
    notes = []
    w = World([])
    w.exc.addHandler(ipexing.IpexHandler(resource="/ipex/grant", hby=w.hby, notifier=SimpleNamespace(add=lambda attrs: notes.append(attrs))))
    evs = sender()
    w.event(evs[0])
    x = interact(nosaid(5), nosaid(6), sn=1, **JSON)
    i = interact(nosaid(5), nosaid(6), sn=2, **JSON)
    m = exchange(sender=evs[0].pre, receiver=nosaid(1), route="/ipex/grant", attributes=dict(m="t", acdc=x.said, iss=i.said), stamp=DT, pvrsn=Vrsn_2_0, gvrsn=Vrsn_2_0, kind=Kinds.json)
    good = {j: ctx.boolean("good%d" % j) for j in (1, 2)}
    ideal.ORACLE = lambda k, msg, s: good[bytes(s)[0]] if bytes(msg) == bytes(m.raw) else True
    first, second = ctx.choose("nests", [((x, i), (x, i)), ((x, i), ()), ((x, i), (i, x)), ((x,), (x, i))])
    for pos, ns in ((0, first), (1, second)):
        try:
            w.exc.processEvent(serder=m, tsgs=[(Prefixer(qb64=evs[0].pre), Number(num=0), Diger(qb64=evs[0].said), [sig(pos, n=pos + 1)])],
                               nests=[dict(serder=s, sigers=[sig(0, n=70)]) for s in ns])
        except MissingSignatureError:
            pass
    w.exc.processEscrow()
    last = second or first
    done = good[1] & good[2] & (last == (x, i))
    ctx.check((w.db.exns.get(keys=(m.said,)) is not None) == done, "saved", lambda: (first, second))
    ctx.check(len(notes) == done * 1, "handled")
    if bool(done):
        ns = exchanging.loadParsedNestedSubstreams(w.hby, m.said)
        ctx.check([n.serder.said for n in ns] == [x.said, i.said], "artifacts kept")
        ctx.check(all(len(n.sigers) == 1 for n in ns), "signatures of the artifacts kept")
        ctx.reach("saved")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, expect, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=expect, weight=weight))
    E, Et = ("e",), ("e", "t")
    D = lambda c, pos, *labels: (c, tuple(pos), labels)
    plans = dict(
        whole=[0, D(0, (0, 1), "ex"), E, D(0, (1, 2), "ey", "fz")],
        repeated=[0, D(0, (0, 1, 0), "ex", "ey"), E],
        partial=[0, D(0, (0,), "ex"), E, D(0, (1,), "ex"), E, E],
        threes=[0, D(0, (0,)), D(0, (1,), "ex"), D(0, (2,), "ey"), E],
        doubled=[0, D(0, (0,), "ex"), D(0, (0,), "ex"), E],
        early=[D(0, (0, 1), "ex"), E, 0, E],
        earlypart=[D(0, (0,), "ex"), 0, D(0, (2,), "ex"), E],
        future=[0, D(2, (0, 1), "ex"), E, 1, E, 2, E],
        older=[0, 1, 2, D(0, (0, 1), "ex"), E],
        newer=[0, 1, 2, D(2, (0, 2), "ex"), E, D(0, (1, 2), "ex")],
        both=[0, 1, D(0, (0, 1), "ex"), 2, D(2, (0, 1), "ex"), E],
        mixed=[0, 1, 2, D(0, (0,), "ex"), D(2, (0, 1), "ey"), E],
        bare=[0, D("none", (), "ex"), E, D(0, (0, 1), "ey"), E],
        after=[0, D(0, (0, 1), "ex"), D("none", ()), E, D(0, (2,), "ey"), E, D(0, (1, 2), "ex"), E],
        direct=[0, D(0, (0,), "ex"), D(0, (1, 2), "ex"), E, E],
        foreign=[0, D("foreign", (0, 1)), E, D(0, (0, 1), "ex"), D("foreign", (0, 1))],
        wrong=[0, 1, D("wrong", (0, 1)), E, D(0, (0, 1), "ex"), D("wrong", (0, 1))],
        ixn=[0, 1, D("ixn", (0, 1)), E, D(0, (0, 1), "ex"), D("ixn", (0, 1))],
        stale=[0, D(0, (0,), "ex"), Et, D(0, (1,), "ex"), E],
        staleearly=[D(0, (0, 1), "ex"), Et, 0, E],
    )
    must = dict(whole=["at once", "waits"], partial=["waits", "from escrow"], early=["waits", "from escrow"], stale=["stale"], direct=["at once"], after=["incomplete copy"])
    for k, p in plans.items():
        add("plan-" + k, deliveries, must.get(k, []) + (["end"]), 3, plan=p)
    for k in ("right", "wrong"):
        add("essr-whole-" + k, deliveries, [], plan=[0, D(0, (0, 1), "E"), E], essr=k)
        add("essr-without-" + k, deliveries, [], plan=[0, D(0, (0, 1)), E], essr=k)
    for p in ([0, D(0, (0,), "E"), D(0, (1,), "E"), E], [0, D(0, (0,), "E"), E, D(0, (1,)), E], [0, D(0, (0,)), E, D(0, (1,), "E"), E], [D(0, (0, 1), "E"), E, 0, E]):
        add("essr-part-%d" % len(out), deliveries, ["from escrow"], plan=p, essr="right")
    if T:
        ds = [D(0, (0,), "ex"), D(0, (1,), "ex"), D(0, (0, 1), "ey"), D("none", (), "ez"), D(2, (0, 1), "ex"), D(2, (2,), "ew"), E, 0]
        for q in itertools.product(range(len(ds)), repeat=3):
            p = [ds[x] for x in q]
            if 0 in p and p.count(0) == 1 and p[-1] != 0 and any(isinstance(x, tuple) and x != E for x in p) or 0 not in p and q[0] != 6:
                add("all-%s" % "".join(map(str, q)), deliveries, [], 2, plan=(p if 0 in p else [0] + p) + [E])
    for who in ("nontrans", "trans", "other"):
        for n in (1, 2):
            add("couple-%s-%d" % (who, n), couples, [], who=who, nsigs=n, group=False)
    add("couple-group", couples, ["taken", "refused"], who="trans", nsigs=1, group=True)
    for r in ("/a/b", "/a/c"):
        add("behavior-" + r[-1], behaviors, ["taken"], route=r)
    for v in (1, 2):
        for n in (1, 2) + ((3,) if T else ()):
            add("ipex-%d-%d" % (v, n), ipex, ["end"], 3 ** n, version=v, steps=n)
        for a in ("apply", "offer", "grant"):
            for n in (3,) + ((4,) if T and v == 1 else ()):
                add("ipex-%d-%d-%s" % (v, n, a), ipex, ["end"], 20 ** (n - 2), version=v, steps=n, first=a)
    add("nested", nested, ["saved"], 2, split=True)
    return out


BOUNDS = ("A sender with three keys of which two are needed, an inception, an interaction and a rotation to other keys: 22 histories of up to seven "
          "steps (deliveries of copies of a message under any of these events, an unknown event, another identifier's event, none; positions signed "
          "and attachments as listed; the sender's events; processing of the escrow), the verdict of every signature symbolic, the time symbolic where "
          "waiting ends; content sent apart (right, wrong, missing, in parts). Signatures with their keys: one or two, symbolic verdicts, three kinds of "
          "signer. IPEX of both versions: all sequences of up to three messages with any verb, prior and artifacts. Thorough: all histories of three "
          "steps of eight kinds; IPEX v1 with four messages.")
OUTSIDE = ("Group members' /multisig behaviours; content of credentials; whether the one who answers an IPEX message is its receiver (the code does "
           "not look); senders with weighted thresholds here (C05 decides thresholds); partly signed copies under different events of the sender hold "
           "each other up.")
ASSUMPTIONS = ["signature scheme idealised"]
