"""Kever inception, update by rotation (next, recovery) and by interaction, over many witness lists, cuts and adds;
the threshold, the position each witness signature states and the witness that made it are symbolic."""
from checks.kel import *
from hio.help import decking
from keri.kering import ValidationError, MissingWitnessSignatureError, MissingSignatureError

W = lambda ii: [wit(i) for i in ii]


def newwits(ws, cuts, adds):
    """witness list after the changes, or None when they make no sense"""
    if len(set(cuts)) != len(cuts) or len(set(adds)) != len(adds):
        return None
    if any(c not in ws for c in cuts) or any(a in ws or a in cuts for a in adds):
        return None
    return [w for w in ws if w not in cuts] + [a for a in adds]


def receipts(ctx, ns, pool, top):
    """ns witness signatures: stated position and maker are symbolic"""
    idx = [ctx.integer("idx%d" % j, 0, top) for j in range(ns)]
    own = [ctx.integer("own%d" % j, 0, pool) for j in range(ns)]      # pool stands for no witness at all
    ctrl = ctx.boolean("ctrl")

    def f(vk, msg, s):
        vk = bytes(vk)
        if vk[0] <= 100:
            return ctrl
        return own[s[0] - 50] == (vk[0] - 101)
    ideal.ORACLE = f
    return [sig(idx[j], n=50 + j) for j in range(ns)], idx, own, ctrl


def count(ws, idx, own):
    tot = 0
    for p, w in enumerate(ws):
        h = False
        for i, o in zip(idx, own):
            h = h | ((i == p) & (o == w))
        tot = tot + h
    return tot


def inrange(toad, ws):
    return (toad >= 1) & (toad <= len(ws)) if ws else toad == 0


def escrowed(db, pre):
    return [(on, val) for _, on, val in db.pwes.getAllItemIter(keys=pre)]


def verdict(ctx, db, pre, e, ws, toad, idx, own, ctrl, run, before, undone, mine=False):
    """present the event by run(); ws the witness list it establishes or None"""
    legal = inrange(toad, ws) if ws is not None else False
    okay = legal & ctrl & (mine or (count(ws, idx, own) >= toad)) if ws is not None else False
    try:
        run()
    except (ValidationError, ValueError) as err:
        ctx.check(not okay, "event with enough witness signatures refused", lambda: repr(err)[:100])
        undone(before)
        if isinstance(err, MissingWitnessSignatureError):
            ctx.check(legal & ctrl, "hopeless event kept for more witness signatures")
            ctx.check(escrowed(db, pre) == [(e.sn, e.said)], "event lacking witness signatures not kept")
            good = []
            for i, o in zip(idx, own):
                for p, w in enumerate(ws):
                    good.append((i == p) & (o == w))
            kept = [s.index for s in db.wigs.get(keys=(pre, e.said))]
            for p, w in enumerate(ws):
                h = False
                for i, o in zip(idx, own):
                    h = h | ((i == p) & (o == w))
                ctx.check(h == any(k == p for k in kept), "witness signatures kept are not the verified ones")
            ctx.reach("kept")
        else:
            ctx.check(not (legal & ctrl), "event lacking only witness signatures not kept for more")
            ctx.check(escrowed(db, pre) == [], "refused event kept")
            ctx.reach("refused")
        return False
    ctx.check(okay, "event accepted without enough witness signatures or with senseless witnesses")
    ctx.reach("taken")
    return True


def inception(ctx, ws, ns, mine=False):
    db = open_db()
    toad = ctx.integer("toad", 0, len(ws) + 2)
    base = incept(keys=keys(0), ndigs=digs(1), wits=W(dict.fromkeys(ws)), code=MtrDex.Blake3_256, **JSON)
    e = body(base, b=W(ws), bt="%x" % toad)
    wigers, idx, own, ctrl = receipts(ctx, ns, 4, len(ws) + 1)
    got = []
    if mine:
        db.prefixes.add(e.pre)

    def run():
        got.append(Kever(serder=e, sigers=[sig()], wigers=wigers, db=db, cues=decking.Deck(), local=mine))

    def undone(b):
        ctx.check(kel(db, e.pre) == [] and fel(db, e.pre) == [] and db.states.get(keys=e.pre) is None, "refused inception logged")
    if verdict(ctx, db, e.pre, e, list(ws) if len(set(ws)) == len(ws) else None, toad, idx, own, ctrl, run, None, undone, mine):
        st = kstate(got[0])
        ctx.check(st["wits"] == W(ws) and st["toad"] == toad, "witnesses of key state")
        ctx.check([p.qb64 for p in db.wits.get(keys=(e.pre, e.said))] == W(ws), "witness list stored with event")
        rec = drec(db.states.get(keys=e.pre))
        ctx.check(rec["b"] == W(ws) and int(rec["bt"], 16) == toad, "witnesses of stored key state")


def base_kel(ws, n, hist):
    db = open_db()
    allgood()
    s = incept(keys=keys(0), ndigs=digs(1), wits=W(ws), toad=n, code=MtrDex.Blake3_256, **JSON)
    all_ = lambda m: [sig(p, n=90) for p in range(m)]
    kv = Kever(serder=s, sigers=[sig()], wigers=all_(len(ws)), db=db, cues=decking.Deck(), local=False)
    db.kevers[s.pre] = kv
    evs, ki = [s], 0
    cur = list(ws)
    for h in hist:
        if h == "x":
            e = interact(s.pre, evs[-1].said, sn=len(evs), **JSON)
        else:
            cuts, adds = h
            e = rotate(s.pre, keys(ki + 1), evs[-1].said, sn=len(evs), ndigs=digs(ki + 2), wits=W(cur), cuts=W(cuts), adds=W(adds),
                       toad=1 if newwits(cur, cuts, adds) else 0, **JSON)
            cur = newwits(cur, cuts, adds)
            ki += 1
        kv.update(e, [sig()], wigers=all_(len(cur)), local=False)
        evs.append(e)
    return db, kv, evs, cur, ki


def rotation(ctx, ws, hist, at, cuts, adds, ns, mine=False):
    """at: how many sequence numbers before the next one"""
    db, kv, evs, cur, ki = base_kel(ws, 1 if ws else 0, hist)
    pre = kv.prefixer.qb64
    sn = len(evs) - at
    toad = ctx.integer("toad", 0, len(ws) + len(adds) + 1)
    base = rotate(pre, keys(ki + 1), evs[sn - 1].said, sn=sn, ndigs=digs(ki + 2), **JSON)
    e = body(base, br=W(cuts), ba=W(adds), bt="%x" % toad)
    now = newwits(cur, cuts, adds)
    wigers, idx, own, ctrl = receipts(ctx, ns, 6, len(now or cur))
    st = lambda: (kel(db, pre), fel(db, pre), drec(db.states.get(keys=pre)), kstate(kv))
    before = st()
    if mine:
        db.prefixes.add(pre)

    def undone(b):
        ctx.check(st() == b, "refused rotation changed the record")
    if verdict(ctx, db, pre, e, now, toad, idx, own, ctrl, lambda: kv.update(e, [sig()], wigers=wigers, local=mine), before, undone, mine):
        k = kstate(kv)
        ctx.check(k["wits"] == W(now) and k["toad"] == toad, "witnesses after rotation")
        ctx.check([p.qb64 for p in db.wits.get(keys=(pre, e.said))] == W(now), "witness list stored with rotation")
        r = db.states.get(keys=pre)
        ctx.check(list(r.b) == W(now) and int(r.bt, 16) == toad and list(r.ee.br) == W(cuts) and list(r.ee.ba) == W(adds), "stored key state")


def interaction(ctx, ws, n, hist, ns):
    db, kv, evs, cur, ki = base_kel(ws, n, hist)
    pre = kv.prefixer.qb64
    e = interact(pre, evs[-1].said, sn=len(evs), data=[dict(d=nosaid(3))], **JSON)
    wigers, idx, own, ctrl = receipts(ctx, ns, 6, len(cur))
    st = lambda: (kel(db, pre), fel(db, pre), drec(db.states.get(keys=pre)), kstate(kv))
    toad = kv.toader.num
    ctx.check(toad == (n if not any(h != "x" for h in hist) else (1 if cur else 0)), "threshold in force")
    if verdict(ctx, db, pre, e, cur, toad, idx, own, ctrl, lambda: kv.update(e, [sig()], wigers=wigers, local=False), st(),
               lambda b: ctx.check(st() == b, "refused interaction changed the record")):
        ctx.check(kstate(kv)["wits"] == W(cur) and kv.toader.num == toad, "witnesses after interaction")


ALL3 = ["taken", "kept", "refused"]


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, ns, exp, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=dict(ns=ns, **p), expect=exp, weight=weight * (1 + ns)))
    nm = lambda x: "".join(map(str, x)) or "-"
    for ws in [(), (0,), (0, 1), (0, 1, 2), (0, 0), (0, 1, 0)]:
        dup = len(set(ws)) != len(ws)
        for ns in ([1] if not ws or dup else [0, 2] if not T or len(ws) < 2 else [0, 1, 2, 3]):
            add("icp-%s-%d" % (nm(ws), ns), inception, ns, ["refused"] if dup else ["taken", "refused"] if not ws else
                ["kept", "refused"] + (["taken"] if ns else []), ws=ws, weight=len(ws))
    rots = [((), (), ()), ((), (), (3,)), ((0, 1), (), ()), ((0, 1), (0,), ()), ((0, 1), (1,), (2,)), ((0, 1), (0, 1), ()), ((0, 1), (0, 1), (2,)),
            ((0, 1), (2,), ()), ((0, 1), (0, 0), ()), ((0, 1), (), (1,)), ((0, 1), (0,), (0,)), ((0,), (), (2, 2)), ((0,), (0,), (2, 3)),
            ((0, 1, 2), (1,), (4, 3)), ((0,), (), (2, 0))]
    for hist, at in [((), 0), (("x",), 1), (("x", "x"), 1), (("x", "x"), 2)]:
        for ws, cuts, adds in rots:
            if at and not T and (ws, cuts, adds) not in rots[1:10:2] + rots[13:14]:
                continue
            if not T and (hist, at) == (("x", "x"), 1):
                continue
            now = newwits(ws, cuts, adds)
            for ns in ([1] if not now else [2] if not T else [1, 2, 3] if len(now) > 1 else [2]):
                add("rot%s-%s-%s-%s-%d" % ("-rec%d%d" % (len(hist), at) if at else "", nm(ws), nm(cuts), nm(adds), ns), rotation, ns,
                    ["refused"] if now is None else ["taken", "refused"] if not now else ALL3, ws=ws, cuts=cuts, adds=adds, hist=hist, at=at,
                    weight=1 + len(now or ()))
    # own events need no receipts yet, but sensible witnesses
    for ws in [(), (0, 1), (0, 0)]:
        add("own-icp-%s" % nm(ws), inception, 1, ["refused"] + (["taken"] if len(set(ws)) == len(ws) else []), ws=ws, mine=True)
    for hist, at in [((), 0), (("x",), 1)]:
        for ws, cuts, adds in [((), (), ()), ((0, 1), (1,), (2,)), ((0, 1), (0, 1), ()), ((0, 1), (), (1,))]:
            now = newwits(ws, cuts, adds)
            add("own-rot%d-%s-%s-%s" % (at, nm(ws), nm(cuts), nm(adds)), rotation, 1, ["refused"] + (["taken"] if now is not None else []),
                ws=ws, cuts=cuts, adds=adds, hist=hist, at=at, mine=True)
    # a recovery after earlier changes of witnesses
    h = (((0,), (2,)), "x")
    for cuts, adds in [((2,), (0,)), ((1,), ()), ((0,), ()), ((), (2,))]:
        now = newwits((1, 2), cuts, adds)
        for at in (0, 1):
            add("rot-later%d-%s-%s" % (at, nm(cuts), nm(adds)), rotation, 2, ["refused"] if now is None else ALL3, ws=(0, 1), cuts=cuts, adds=adds,
                hist=h, at=at, weight=3)
    for ws, n, hist in [((), 0, ()), ((0,), 1, ()), ((0, 1), 2, ("x",)), ((0, 1, 2), 2, ()), ((0, 1), 1, (((0,), (3, 4)),)), ((0, 1), 2, (((0, 1), ()),))]:
        for ns in ([2] if not T else [2, 3]):
            cur = list(ws)
            for x in hist:
                if x != "x":
                    cur = newwits(cur, *x)
            add("ixn-%s-%d-%s-%d" % (nm(ws), n, "x" if "x" in hist else len(hist), ns), interaction, ns, ["taken", "refused"] + (["kept"] if cur else []), ws=ws, n=n, hist=hist,
                weight=1 + len(ws))
    return out


BOUNDS = "witness lists of 0 to 3 (with repeats), 15 combinations of cuts and adds, as next rotation and as recovery up to two numbers back, any threshold to two above the list, 0 to 2 witness signatures (thorough 3) each with any stated position and any maker, interactions after rotations; own events with and without receipts"
OUTSIDE = "longer witness lists; whether a local witness skips the threshold"
ASSUMPTIONS = ["signature scheme idealised: a witness signature verifies with its maker's key only"]
