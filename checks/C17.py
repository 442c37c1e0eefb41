"""One honest witnessed log, its events in copies carrying part of the signatures plus signatures that may not verify, its receipts,
its delegator's events and forgeries go to the real Kevery in every order, with escrows processed at chosen points and
then until nothing changes.  Symbolic verdict of every signature.  Oracle: what in-order delivery of all the good ones gives."""
import itertools
from checks.kel import *
from checks.C18 import cig, Receipter
from keri.kering import ValidationError
from keri.core.coring import Number, NumDex

W = lambda ii: [wit(i) for i in ii]


class Item:
    """one delivery: signatures and witness signatures as (position, number of the verdict)"""

    def __init__(self, e, sigs=(), wigs=(), kind="evt", via="w", src=None):
        self.e, self.sigs, self.wigs, self.kind, self.via, self.src = e, list(sigs), list(wigs), kind, via, src

    def give(self, kvy):
        try:
            if self.kind == "evt":
                kw = {}
                if self.src is not None:
                    kw = dict(delsner=Number(num=self.src.sn, code=NumDex.Huge), delsger=Diger(qb64=self.src.said))
                kvy.processEvent(self.e, [sig(i, n=t) for i, t in self.sigs], wigers=[sig(i, n=t) for i, t in self.wigs], **kw)
            else:
                wi, ci = [], []
                for i, t in self.wigs:
                    wi.append(sig(i, n=t)) if self.via == "w" else ci.append(cig(key(100 + i, trans=False), t))
                kvy.processReceipt(eventing.receipt(self.e.pre, self.e.sn, self.e.said, **JSON), cigars=ci, wigers=wi, tsgs=[], rsgs=[])
        except ValidationError:
            pass


def history(shape, thr, toad, cnt=2, base=0, wits=2, delpre=None):
    """shape: x interaction, r rotation, w rotation changing witnesses; cnt keys, all of thr needed"""
    ks = lambda m: list(range(base + m * cnt, base + (m + 1) * cnt))
    ws = list(range(wits))
    kw = dict(delpre=delpre) if delpre else {}
    s = incept(keys=keys(*ks(0)), isith="%x" % thr, ndigs=digs(*ks(1)), nsith="%x" % thr, wits=W(ws), toad=toad, code=MtrDex.Blake3_256, **kw, **JSON)
    evs, m, out = [s], 0, [list(ws)]
    for h in shape:
        if h == "x":
            evs.append(interact(s.pre, evs[-1].said, sn=len(evs), data=[dict(d=nosaid(len(evs)))], **JSON))
        else:
            m += 1
            cuts, adds = ([ws[0]], [ws[-1] + 1]) if h == "w" else ([], [])
            mk = eventing.deltate if delpre else rotate
            evs.append(mk(s.pre, keys(*ks(m)), evs[-1].said, sn=len(evs), isith="%x" % thr, ndigs=digs(*ks(m + 1)), nsith="%x" % thr,
                              wits=W(ws), cuts=W(cuts), adds=W(adds), toad=toad, **JSON))
            ws = [w for w in ws if w not in cuts] + adds
        out.append(list(ws))
    return evs, out


def plain(v):
    return [plain(x) for x in v] if isinstance(v, (tuple, list)) else getattr(v, "qb64", str(v))


def record(db, pre):
    esc = []
    for d in (db.ooes, db.pses, db.pwes, db.pdes, db.uwes, db.ures):
        esc.append([plain(v) for v in d.getTopItemIter()])
    return kel(db, pre), fel(db, pre), esc


def settle(ctx, kvy, pres, most=12):
    db = kvy.db
    last = None
    for _ in range(most):
        kvy.processEscrows()
        now = [record(db, p) for p in pres] + [[(s.index, bytes(s.raw)[0]) for s in db.sigs.get(keys=(p, v))] +
                                               [(s.index, bytes(s.raw)[0]) for s in db.wigs.get(keys=(p, v))]
                                               for p in pres for _, v in kel(db, p)]
        if now == last:
            return
        last = now
    ctx.check(False, "processing escrows never settles")


PUMPS = ("end", "each", "mid")


def arrive(ctx, items, evs, ws, thr, toad, pumps=PUMPS, firsts=None, others=(), sealed=None):
    """items delivered in any order; evs the honest log; ws witness lists in force per number"""
    db = open_db()
    kvy = Kevery(db=db, lax=True, local=False)
    tags = sorted({t for it in items for _, t in it.sigs + it.wigs if t < 90})
    good = {t: ctx.boolean("good%d" % t) for t in tags}
    for it in items:
        mine = [good[t] for _, t in it.sigs if t < 90]
        if it.kind == "evt" and mine and it.e.said in [e.said for e in evs]:      # every copy brings something of its controller
            a = any(t >= 90 for _, t in it.sigs)
            for g in mine:
                a = a | g
            ctx.assume(a)

    def f(vk, msg, s):
        t = bytes(s)[0]
        return good[t] if t < 90 else t != 99        # 90.. verify, 99 does not
    ideal.ORACLE = f
    orders = [o for o in itertools.permutations(range(len(items))) if firsts is None or o[0] in firsts]
    order = ctx.choose("order", orders)
    pump = ctx.choose("pump", list(pumps))
    for n, i in enumerate(order):
        items[i].give(kvy)
        if pump == "each" or pump == "mid" and n == len(items) // 2:
            kvy.processEscrows()
    pre = evs[0].pre
    settle(ctx, kvy, [pre] + list(others))
    # what counts
    ok = True
    val = lambda t: good[t] if t < 90 else t != 99
    took = []
    for n, e in enumerate(evs):
        sg, wg = {}, {}
        for it in items:
            if it.e.said == e.said:
                for i, t in it.sigs:
                    sg.setdefault(i, []).append(t)
                for i, t in it.wigs:
                    p = i if it.kind == "evt" or it.via == "w" else ws[n].index(i)
                    wg.setdefault(p, []).append(t)
        any_ = lambda l: functools_or(val(t) for t in l)
        cnt = sum_(any_(l) for l in sg.values())
        wcn = sum_(any_(l) for l in wg.values())
        ok = ok & (cnt >= thr) & (wcn >= toad)
        if sealed is not None and e.ilk in ("dip", "drt"):
            ok = ok & sealed[n]
        k = [s for s in kel(db, pre) if s[0] == n]
        ctx.check(ok == (k == [(n, e.said)]), "event of a complete log not accepted, or accepted before complete", lambda: (n, order, pump, k))
        if not k:
            ctx.reach("short")
            break
        took.append(e)
        have = [(s.index, bytes(s.raw)[0]) for s in db.sigs.get(keys=(pre, e.said))]
        whave = [(s.index, bytes(s.raw)[0]) for s in db.wigs.get(keys=(pre, e.said))]
        for what, got, given in (("signature", have, sg), ("witness signature", whave, wg)):
            for i, l in given.items():
                for t in l:
                    ctx.check(val(t) == ((i, t) in got), "%s delivered that verifies not kept, or one that does not is" % what,
                              lambda: (n, i, t, order, pump, got))
            ctx.check(all(t in given.get(i, ()) for i, t in got), "%s kept that never came" % what)
    ctx.check([v for _, v in kel(db, pre)] == [e.said for e in took] == fel(db, pre), "log is not the honest log in order")
    if took:
        st = kstate(kvy.kevers[pre])
        ctx.check(st["sn"] == len(took) - 1 and st["d"] == took[-1].said and st["wits"] == W(ws[len(took) - 1]) and st["fn"] == len(took) - 1, "key state")
        rec = db.states.get(keys=pre)
        ctx.check(rec.d == took[-1].said and int(rec.s, 16) == len(took) - 1, "stored key state")
    if len(took) == len(evs):
        ctx.check(all(x == [] for x in record(db, pre)[2]), "something still waits although all is there", lambda: record(db, pre)[2])
        ctx.reach("all")


def functools_or(it):
    r = False
    for x in it:
        r = r | x
    return r


def sum_(it):
    r = 0
    for x in it:
        r = r + x
    return r


def plan(ctx, shape, items, thr=2, toad=1, wits=2, **kw):
    evs, ws = history(shape, thr, toad, wits=wits)
    bad = interact(evs[0].pre, evs[0].said, sn=1, data=[dict(d=nosaid(40))], **JSON)
    ev = lambda n: bad if n == "junk" else evs[n]
    its = []
    for it in items:
        n, sigs, wigs = it[:3]
        kind, via = (it[3], it[4]) if len(it) > 3 else ("evt", "w")
        its.append(Item(ev(n), sigs, wigs, kind, via))
    arrive(ctx, its, evs, ws, thr, toad, **kw)


def delegated(ctx, shape, items, sealat, **kw):
    """the delegator's log of three events seals what its third or second says; items: ("D", number) or (number, sigs, wigs, with source)"""
    dl = incept(keys=keys(30), ndigs=digs(31), code=MtrDex.Blake3_256, **JSON)
    evs, ws = history(shape, 1, 0, cnt=1, wits=0, delpre=dl.pre)
    devs = [dl]
    src = {}
    for n, e in enumerate(evs):
        if e.ilk in ("dip", "drt"):
            d = interact(dl.pre, devs[-1].said, sn=len(devs), data=[dict(i=e.pre, s=e.snh, d=e.said)] if sealat[n] else [], **JSON)
            devs.append(d)
            src[n] = d
    its = []
    for it in items:
        if it[0] == "D":
            its.append(Item(devs[it[1]], [(0, 90)]))
        else:
            n, sigs, wigs, s = it
            its.append(Item(evs[n], sigs, wigs, src=src[n] if s == "s" else None))
    arrive(ctx, its, evs, [[]] * len(evs), 1, 0, others=[dl.pre], sealed=sealat, **kw)


def late(ctx, n, pos, wpos):
    """a further copy of an event in the log, any of whose signatures may not verify"""
    evs, ws = history("xw", 2, 1)
    db = open_db()
    kvy = Kevery(db=db, lax=True, local=False)
    good = {t: ctx.boolean("good%d" % t) for t in range(50, 50 + len(pos) + len(wpos))}

    def f(vk, msg, s):
        t = bytes(s)[0]
        return good[t] if t < 90 else True
    ideal.ORACLE = f
    for e in evs:
        kvy.processEvent(e, [sig(0, n=90), sig(1, n=91)], wigers=[sig(0, n=92)])
    e = evs[n]
    pre = e.pre
    before = kel(db, pre), fel(db, pre), kstate(kvy.kevers[pre])
    sg = [(i, 50 + j) for j, i in enumerate(pos)]
    wg = [(i, 50 + len(pos) + j) for j, i in enumerate(wpos)]
    try:
        Item(e, sg, wg).give(kvy)
    except Exception as ex:
        ctx.check(False, "late copy raises", lambda: repr(ex))
    for what, got, given, base in (("signature", db.sigs.get(keys=(pre, e.said)), sg, {(0, 90), (1, 91)}), ("witness signature", db.wigs.get(keys=(pre, e.said)), wg, {(0, 92)})):
        got = {(s.index, bytes(s.raw)[0]) for s in got}
        ctx.check(base <= got, what + " lost")
        for i, t in given:
            ctx.check(good[t] == ((i, t) in got), "%s that comes late and verifies not kept, or one that does not is" % what, lambda: (i, t, got))
        ctx.check(got <= base | set(given), what + " kept that never came")
    ctx.check((kel(db, pre), fel(db, pre), kstate(kvy.kevers[pre])) == before, "a further copy changes the log")
    ctx.reach("end")


E = lambda n, s, w, *a: (n, tuple(s), tuple(w)) + a


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, shape, items, exp=("all", "short"), firsts=(None,), **kw):
        for p in PUMPS:
            for f in (range(len(items)) if firsts == "split" else firsts):
                out.append(dict(name="%s-%s%s" % (name, p, "" if f is None else "-%d" % f), fn=plan, expect=list(exp), weight=len(items) ** 2,
                                params=dict(shape=shape, items=items, pumps=(p,), firsts=None if f is None else (f,), **kw)))
    g = [(0, 90), (1, 91)]
    w = [(0, 92)]
    # whole events, one partly signed twice
    add("ixn-split", "x", [E(0, g, w), E(1, [(0, 50)], []), E(1, [(1, 51)], [(0, 60)])])
    add("icp-split", "x", [E(0, [(0, 50)], []), E(0, [(1, 51)], [(0, 60)]), E(1, g, w)])
    add("rot-split", "r", [E(0, g, w), E(1, [(0, 50)], [(1, 60)]), E(1, [(1, 51)], [])])
    add("junk-beside", "x", [E(0, g, w), E(1, [(0, 90), (1, 50), (1, 51)], [(0, 60), (1, 61)])])
    add("chain3", "xr", [E(0, g, w), E(1, g, w), E(2, [(0, 50), (1, 91)], [(1, 60)])])
    add("chain4", "xrx", [E(0, g, w), E(1, g, w), E(2, g, w), E(3, [(0, 90), (1, 51)], [(0, 60)])])
    add("change-wits", "wx", [E(0, g, w), E(1, g, [(1, 60)]), E(2, g, [(0, 61)])])
    add("receipt-w", "x", [E(0, g, w), E(1, g, []), E(1, [], [(1, 60)], "rct", "w")])
    add("receipt-c", "x", [E(0, g, w), E(1, [(0, 90), (1, 50)], []), E(1, [], [(1, 60)], "rct", "c")])
    add("receipt-icp", "x", [E(0, g, []), E(0, [], [(1, 60)], "rct", "c"), E(1, g, []), E(1, [], [(0, 61)], "rct", "w")])
    add("receipt-two", "x", [E(0, g, w), E(1, g, []), E(1, [], [(1, 60)], "rct", "w"), E(1, [], [(0, 61)], "rct", "c")])
    add("forged", "x", [E(0, g, w), E("junk", [(0, 99), (1, 99)], w), E(1, [(0, 90), (1, 50)], w)])
    add("toad2", "", [E(0, [(0, 90)], [(0, 60)]), E(0, [(1, 50)], [(1, 61)]), E(0, [], [(0, 62)], "rct", "c")], toad=2, exp=("all", "short"))
    if T:
        add("both-split", "x", [E(0, [(0, 50)], [(0, 60)]), E(0, [(1, 51)], []), E(1, [(0, 52)], []), E(1, [(1, 53)], [(1, 61)])])
        add("all-split", "r", [E(0, [(0, 50)], []), E(0, [(1, 51)], []), E(0, [], [(0, 60)], "rct", "w"), E(1, [(0, 52)], []), E(1, [(1, 53)], [(1, 61)])],
            firsts="split")
        add("chain5", "xrwx", [E(0, g, w), E(1, g, w), E(2, g, w), E(3, g, [(1, 60)]), E(4, [(0, 90), (1, 51)], [(0, 61)])], firsts="split")
        add("receipts4", "wx", [E(0, g, w), E(1, g, []), E(1, [], [(1, 60)], "rct", "w"), E(2, g, []), E(2, [], [(2, 61)], "rct", "c")], firsts="split")

    def dele(name, shape, items, sealat, exp):
        for p in PUMPS:
            out.append(dict(name="%s-%s" % (name, p), fn=delegated, expect=list(exp), weight=len(items) ** 2,
                            params=dict(shape=shape, items=items, sealat=sealat, pumps=(p,))))
    D = [("D", 0), ("D", 1)]
    for s in ("s", ""):
        dele("del%s" % s, "", D + [E(0, [(0, 50)], [], s)], [True], ("all",))
        dele("del-ixn%s" % s, "x", D + [E(0, [(0, 90)], [], s), E(1, [(0, 50)], [], "")], [True, True], ("all",))
    dele("unsealed", "", D + [E(0, [(0, 90)], [], "s")], [False], ("short",))
    if T:
        for s in ("s", ""):
            dele("del-rot%s" % s, "r", D + [("D", 2), E(0, [(0, 90)], [], "s"), E(1, [(0, 90)], [], s)], [True, True], ("all",))
    for n in range(3):
        for pos, wpos in (((0,), (1,)), ((1, 0), (0,)), ((0,), (0, 1)), ((), (1,)), ((0,), ())):
            out.append(dict(name="late-%d-%s-%s" % (n, "".join(map(str, pos)), "".join(map(str, wpos))), fn=late, expect=["end"], params=dict(n=n, pos=pos, wpos=wpos)))
    dele("del-rot1", "r", [("D", 0), ("D", 2), ("D", 1), E(1, [(0, 90)], [], "s"), E(0, [(0, 90)], [], "s")], [True, True], ("all",))
    return out


BOUNDS = "logs of 1 to 4 events (thorough 5) of two keys, both needed, and two witnesses, threshold 1 or 2; 3 or 4 deliveries (thorough 5) of whole or partly signed copies, receipts in both forms, a forgery, in every order; verdicts of up to 4 signatures free; escrows processed after each delivery, midway or only at the end; delegated logs with the seal's source stated or unstated"
OUTSIDE = "first copies on which no controller signature verifies (refused whole); rival events of the same controller and recoveries (C11, C15); copies naming a wrong source of the seal; waiting longer than the escrow times; signatures kept while the event still waits out of order"
ASSUMPTIONS = ["signature scheme idealised: each signature verifies or does not", "a forged event is one with no signature that verifies"]
