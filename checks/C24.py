"""Real Kevery, Revery, Tevery and key Manager over an LMDB stand-in that makes each write transaction a possible last one: the number of
the write at which the process stops is a solver variable, and so are verdicts of signatures.  After the stop everything in memory
is gone; new objects on what was written take the same again.  Oracle: the same deliveries without the stop."""
import ideal
import lmdb
from checks.kel import *
from checks import C17, C29
from checks.C17 import Item, history, plain
from keri.kering import ValidationError
from keri.core.coring import Number, NumDex, Prefixer
from keri.core.routing import Revery
from keri.core.eventing import reply
from keri.db.basing import statedict
from keri.app.keeping import Keeper, Manager, Algos
from keri.core.signing import Salter, Signer


class Stop(BaseException):
    pass


class Writes:
    """counts writes; the one whose number is k does not happen, nor anything after it"""

    def __init__(self, k=None):
        self.k, self.n = k, 0

    def __enter__(self):
        lmdb.FAULT = self
        return self

    def __call__(self, commits):
        self.n += 1
        if self.k is not None and self.k == self.n:
            raise Stop()

    def __exit__(self, *pa):
        lmdb.FAULT = None


def again(db):
    """a Baser of a new process on the same store"""
    t = type(db).__new__(type(db))
    t.__dict__.update(db.__dict__)
    t._kevers = statedict()
    t._kevers.db = t
    t.prefixes, t.groups = type(db.prefixes)(), type(db.groups)()
    return t


def node(db):
    rvy = Revery(db=db, lax=True, local=False)
    kvy = Kevery(db=db, lax=True, local=False, rvy=rvy)
    kvy.registerReplyRoutes(rvy.rtr)
    return kvy


DATED = {"dt"}


def whole(db, pres):
    """everything a user can see about the identifiers but instants"""
    out = {}
    for p in pres:
        out[p] = [kel(db, p), fel(db, p)]
        r = db.states.get(keys=p)
        out[p].append(None if r is None else [(k, str(v)) for k, v in sorted(vars(r).items()) if k not in DATED])
        for _, d in kel(db, p):
            f = db.fons.get(keys=(p, d))
            out[p].append((d, f and f.num, sorted((s.index, bytes(s.raw)[0]) for s in db.sigs.get(keys=(p, d))),
                           sorted((s.index, bytes(s.raw)[0]) for s in db.wigs.get(keys=(p, d))), [x.qb64 for x in db.wits.get(keys=(p, d))],
                           sorted(bytes(c.raw)[0] for v, c in db.rcts.get(keys=(p, d))), len(db.vrcs.get(keys=(p, d))),
                           plain(db.aess.get(keys=(p, d)) or ())))
        out[p].append(C17.record(db, p)[2])
    return out


def settle(kvy, k=8):
    for _ in range(k):
        kvy.processEscrows()


def sound(ctx, db, pre):
    """what is found at the start of a new process"""
    r = db.states.get(keys=pre)
    if r is None:
        return
    n, k = int(r.s, 16), kel(db, pre)
    f = fel(db, pre)
    ctx.check((n, r.d) in k, "key state names an event that is not in the log")
    for j in range(n + 1):
        ds = [d for s, d in k if s == j]
        ctx.check(len(ds) > 0, "gap in the log below the key state")
        for d in ds:
            ctx.check(d in f, "event of the log is not among those first seen")
            ctx.check(db.evts.get(keys=(pre, d)) is not None and db.sigs.get(keys=(pre, d)), "event of the log lacks body or signatures")
    kv = db.kevers[pre]
    ctx.check(kv.sn == n and kv.serder.said == r.d, "key state that is loaded")


def once(ctx, db, pre):
    f = fel(db, pre)
    ctx.check(len(set(f)) == len(f), "event seen first twice", lambda: f)
    msgs = [bytes(m) for m in db.clonePreIter(pre=pre)]
    ctx.check(len(msgs) == len(f), "replay of the log")


def run(kvy, items, order, pump):
    for n, i in enumerate(order):
        items[i].give(kvy)
        if pump == "each":
            kvy.processEscrows()
    settle(kvy)


def now(db, pres):
    """what is in force"""
    out = []
    for p in pres:
        r = db.states.get(keys=p)
        out += [[(k, str(v)) for k, v in sorted(vars(r).items()) if k not in ("dt", "f")], [db.kels.getLast(keys=p, on=j) for j in range(int(r.s, 16) + 1)], C17.record(db, p)[2]]
    return out


def crash(ctx, items, pres, order, pump, most, whole=whole, turns=1):
    k = ctx.integer("stop", 1, most)
    free = sorted({t for it in items for _, t in it.sigs + it.wigs if t < 90})
    good = {t: ctx.boolean("good%d" % t) for t in free}
    ideal.ORACLE = lambda vk, msg, s: good.get(bytes(s)[0], True)
    want = open_db("a")
    kvy = node(want)
    run(kvy, items, order, pump)
    want = whole(want, pres)
    db = open_db("b")
    kvy = node(db)
    try:
        with Writes(k) as w:
            run(kvy, items, order, pump)
        ctx.check(whole(db, pres) == want, "not deterministic")
        return ctx.reach("no stop")
    except Stop:
        ctx.reach("stopped")
    db = again(db)
    for p in pres:
        sound(ctx, db, p)
    kvy = node(db)
    first = ctx.choose("escrows first", [False, True])
    if first:
        settle(kvy)
    for j in range(turns):
        run(kvy, items, order, pump)
    got = whole(db, pres)
    for p in pres:
        once(ctx, db, p)
    ctx.check(got == want, "end differs from that without the stop", lambda: type(got) is list and (got, want) or [(a, b) for p in pres for a, b in zip(got[p], want[p]) if a != b])
    ctx.reach("same")


def log(ctx, shape, what, order, pump, most=150, thr=2, toad=1):
    evs, ws = history(shape, thr, toad)
    items = []
    for it in what:
        n, sigs, wigs = it[:3]
        kind, via = (it[3], it[4]) if len(it) > 3 else ("evt", "w")
        items.append(Item(evs[n], sigs, wigs, kind, via))
    crash(ctx, items, [evs[0].pre], order, pump, most)


def recovery(ctx, order, pump, most=150):
    evs, ws = history("xx", 1, 0, cnt=1, wits=0)
    r = rotate(evs[0].pre, keys(1), evs[0].said, sn=1, isith="1", ndigs=digs(2), nsith="1", **JSON)
    e = interact(evs[0].pre, r.said, sn=2, data=[dict(d=nosaid(9))], **JSON)
    crash(ctx, [Item(x, [(0, 90)]) for x in evs + [r, e]], [evs[0].pre], order, pump, most, whole=whole if order in ((0, 1, 2, 3, 4), (0, 1, 3, 4, 2)) else now, turns=2)


def delegated(ctx, shape, order, pump, most=200):
    dl = incept(keys=keys(30), ndigs=digs(31), code=MtrDex.Blake3_256, **JSON)
    evs, ws = history(shape, 1, 0, cnt=1, wits=0, delpre=dl.pre)
    devs, src = [dl], {}
    for e in evs:
        if e.ilk in ("dip", "drt"):
            devs.append(interact(dl.pre, devs[-1].said, sn=len(devs), data=[dict(i=e.pre, s=e.snh, d=e.said)], **JSON))
            src[e.said] = devs[-1]
    items = [Item(d, [(0, 90)]) for d in devs] + [Item(e, [(0, 90)], src=src.get(e.said)) for e in evs]
    crash(ctx, items, [dl.pre, evs[0].pre], order, pump, most)


def rival(ctx, what):
    """after the restart another event for the place comes first"""
    evs, ws = history("x", 1, 0, cnt=1, wits=0)
    other = interact(evs[0].pre, evs[0].said, sn=1, data=[dict(d=nosaid(9))], **JSON)
    allgood()
    db = open_db()
    kvy = node(db)
    Item(evs[0], [(0, 90)]).give(kvy)
    try:
        with Writes(ctx.integer("stop", 1, 20)):
            Item(evs[1], [(0, 90)]).give(kvy)
        ctx.reach("no stop")
    except Stop:
        ctx.reach("stopped")
    db = again(db)
    kvy = node(db)
    left = (1, evs[1].said) in kel(db, evs[0].pre) or evs[1].said in fel(db, evs[0].pre)
    halfway = left and int(db.states.get(keys=evs[0].pre).s, 16) == 0
    for e in (other, evs[1]) if what == "first" else (evs[1], other):
        Item(e, [(0, 90)]).give(kvy)
    k, f = kel(db, evs[0].pre), fel(db, evs[0].pre)
    if what == "first":
        ctx.known("crash-then-rival", halfway)
    ctx.check(len(k) == 2 and [d for _, d in k] == f, "two events seen first in one place")
    if left:
        ctx.check(k[1][1] == evs[1].said, "event in the log gave way to another")
    once(ctx, db, evs[0].pre)
    ctx.reach("end")


def replies(ctx, kind, acts, most=80):
    """acts: 0/1 of successive replies"""
    from checks.C19 import message, shown, Signer, EID
    allgood()
    date = ["2091-01-0%dT00:00:00.000000+00:00" % (j + 1) for j in range(len(acts))]
    k = ctx.integer("stop", 1, most)

    def go(db, w):
        kvy = node(db)
        s = Signer(kvy, 0)
        for j, a in enumerate(acts):
            r = message(kind, s.pre, int(a), date[j])
            with w:
                try:
                    kvy.rvy.processReply(r, tsgs=[(Prefixer(qb64=s.pre), Number(num=0), Diger(qb64=s.evs[0].said), [sig(0, n=50 + j)])])
                except ValidationError:
                    pass
                kvy.rvy.processEscrowReply()
        return s.pre

    def see(db):
        d, a = shown(db, kind, pre)
        return d, a, sorted(k[0] for k, _ in db.rpys.getTopItemIter()), sorted(k[0] for k, _ in db.sdts.getTopItemIter()), []
    a = open_db("a")
    pre = go(a, Writes())
    want = see(a)
    db = open_db("b")
    try:
        go(db, Writes(k))
        return ctx.reach("no stop")
    except Stop:
        ctx.reach("stopped")
    db = again(db)
    d, act = shown(db, kind, pre)
    ctx.known("crash-between-replies", d is not None and db.rpys.get(keys=d) is None)
    go(db, Writes())
    got = see(db)
    ctx.check(got[:2] == want[:2], "reply in force differs from that without the stop", lambda: (got, want))
    ctx.check(set(want[2]) <= set(got[2]), "reply lost")
    ctx.reach("same")


def registry(ctx, steps, most=120):
    """R registry, i issuance, r revocation, as they come"""
    k = ctx.integer("stop", 1, most)

    def world():
        w = C29.World()
        r, o = w.inception(0), w.own[0]
        iss = C29.make(w, "iss", 0, 0, None)
        rev = C29.make(w, "rev", 0, 0, iss.said)
        evs = {}
        for x, e in zip("Rir", (r, iss, rev)):
            evs[x] = e, o.put(o.make(C29.seal(e)))
        return w, evs

    def go(w, evs):
        for x in steps:
            e, a = evs[x]
            try:
                w.give(e, couple=(a.sn, a.said))
            except ValidationError:
                pass
            w.tvy.processEscrows()
        w.tvy.processEscrows()

    def see(w, evs):
        r = evs["R"][0].pre
        t = w.reger.tevers[r] if r in w.reger.tevers else None
        st = t and t.vcState(C29.CRED[0])
        return [C29.log(w.reger, r), C29.log(w.reger, C29.CRED[0]), t and t.sn, st and (st.et, st.s, st.d),
                C29.waiting(w.reger.oots), C29.waiting(w.reger.taes)] + [plain(w.reger.ancs.get(keys=((r if x == "R" else C29.CRED[0]), evs[x][0].said)) or ()) for x in "Rir"]
    w, evs = world()
    go(w, evs)
    want = see(w, evs)
    w, evs = world()
    try:
        with Writes(k):
            go(w, evs)
        ctx.check(see(w, evs) == want, "not deterministic")
        return ctx.reach("no stop")
    except Stop:
        ctx.reach("stopped")
    w.restart()
    r = evs["R"][0].pre
    if r in w.reger.tevers:
        ctx.check(C29.log(w.reger, r) == [(0, r)], "registry without its log")
    go(w, evs)
    got = see(w, evs)
    ctx.check(got == want, "end differs from that without the stop", lambda: [(a, b) for a, b in zip(got, want) if a != b])
    ctx.reach("same")


SALT = Salter(raw=b"0123456789abcdef").qb64


def keystore(ctx, algo, a, plan, most=60):
    """I new identifier, R rotation, M moved to its final prefix; one of them is cut short and then asked again"""
    ideal.ORACLE = None
    seed = Signer(raw=bytes([90] * 32), transferable=False)
    kw = dict(seed=seed.qb64, aeid=seed.verfer.qb64) if a else {}
    ks = Keeper(name="vt", temp=True, reopen=True)
    m = Manager(ks=ks, salt=SALT, algo=algo, **kw)
    pre, promised, cur, prev = None, None, None, []
    k = ctx.integer("stop", 1, most)
    w = Writes(k)
    for j, op in enumerate(plan):
        for turn in (0, 1):
            new = Diger(raw=bytes([33 + j] * 32), code=MtrDex.Blake3_256).qb64
            try:
                with w:
                    if op == "I":
                        vs, ds = m.incept(icount=2, ncount=1, temp=True, stem="s" if algo == Algos.salty and ctx.choose("stem%d" % turn, [0, 1]) else None)
                    elif op == "R":
                        vs, ds = m.rotate(pre, ncount=1, temp=True, erase=True)
                    else:
                        m.move(pre, new)
                break
            except Stop:
                ctx.reach("stopped")
                m = Manager(ks=ks, **kw)
                w.k = None
                if op == "R":
                    sit = ks.sits.get(pre)
                    for p in sit.new.pubs + sit.nxt.pubs:
                        ctx.check(ks.pris.get(p, decrypter=m.decrypter) is not None, "private key of a key on record is missing")
                    ctx.check(all(ks.pris.get(p, decrypter=m.decrypter) is not None for p in cur), "key in use is lost")
                    if sit.new.pubs != cur:      # taken into use before the stop
                        ctx.check([Diger(ser=p.encode()).qb64 for p in sit.new.pubs] == promised, "keys taken into use are not those promised")
                        vs, ds = [Verfer(qb64=p) for p in sit.new.pubs], [Diger(ser=p.encode()) for p in sit.nxt.pubs]
                        break
                if op == "M" and ks.pres.get(new) is not None:
                    break
            except ValueError as ex:
                ctx.check(False, "refused when asked again", repr(ex)[:100])
        if op == "M":
            pre = new
            continue
        if op == "I":
            pre = vs[0].qb64
        else:
            ctx.check([Diger(ser=v.qb64b).qb64 for v in vs] == promised, "keys taken into use are not those promised")
        cur, promised = [v.qb64 for v in vs], [d.qb64 for d in ds]
        sit = ks.sits.get(pre)
        ctx.check(sit.new.pubs == cur and [Diger(ser=p.encode()).qb64 for p in sit.nxt.pubs] == promised, "keys on record")
        got = ks.pubs.get(keeping.riKey(pre, sit.nxt.ridx))
        ctx.check(got and list(got.pubs) == sit.nxt.pubs, "history of public keys")
        for p in cur + sit.nxt.pubs:
            g = ks.pris.get(p, decrypter=m.decrypter)
            ctx.check(g is not None and g.verfer.qb64 == p, "private key is missing")
    ctx.reach("end")


from keri.app import keeping


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, exp, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=exp, weight=weight))
    A = ["stopped", "same", "no stop"]
    g, w = [(0, 90), (1, 91)], [(0, 92)]
    E = lambda n, s, w, *a: (n, tuple(s), tuple(w)) + a
    logs = dict(plain=("xr", [E(0, g, w), E(1, g, w), E(2, [(0, 90), (1, 50)], w)]),
                split=("x", [E(0, g, w), E(1, [(0, 50)], []), E(1, [(1, 91)], w)]),
                wits=("wx", [E(0, g, w), E(1, g, [(1, 92)]), E(2, g, w)]),
                rct=("x", [E(0, g, w), E(1, g, []), E(1, [], [(1, 93)], "rct", "w"), E(1, [], [(0, 94)], "rct", "c")]))
    for n, (shape, what) in logs.items():
        import itertools
        orders = list(itertools.permutations(range(len(what))))
        for o in orders if T else [x for j, x in enumerate(orders) if j % 5 == 0 or x == orders[-1]]:
            for pump in ("each", "end") if T or o == orders[0] else ("end",):
                add("log-%s-%s-%s" % (n, "".join(map(str, o)), pump), log, A, 3, shape=shape, what=what, order=o, pump=pump)
    for o in ("01234", "43210", "01342", "03142") + (("30241", "02314") if T else ()):
        add("recovery-%s" % o, recovery, A, 4, order=tuple(map(int, o)), pump="each")
    for shape, o in (("", "012"), ("", "201"), ("x", "0123"), ("x", "3201"), ("r", "01234"), ("r", "43210")):
        add("delegated-%s-%s" % (shape, o), delegated, A, 4, shape=shape, order=tuple(map(int, o)), pump="end")
    for what in ("first", "after"):
        add("rival-%s" % what, rival, ["stopped", "no stop", "end"], what=what)
    for kind in ("role", "loc", "watch"):
        for acts in ("1", "10", "11", "101") if kind == "role" or T else ("1", "10"):
            add("reply-%s-%s" % (kind, acts), replies, A, 2, kind=kind, acts=acts)
    for steps in ("Rir", "irR", "Rri") + (("rRi", "iRr", "riR") if T else ()):
        add("registry-%s" % steps, registry, A, 3, steps=steps)
    for algo in (Algos.salty, Algos.randy):
        for a in (0, 1):
            for plan in ("IR", "IMR", "IRR"):
                add("keys-%s-%d-%s" % (algo, a, plan), keystore, ["stopped", "end"], 2, algo=algo, a=a, plan=plan)
    return out


BOUNDS = "a stop before any one write of deliveries and escrow processing of logs of up to 5 events (partly signed copies, receipts, rotations of witnesses, recovery, delegation), in order and out of it (thorough: all orders); replies about roles, locations and watched identifiers; registry, issuance, revocation; creating, moving and rotating keys"
OUTSIDE = "(where a recovery comes before what it recovers from, the same is taken in twice after the stop); writes torn inside one transaction (LMDB), a second stop, stops between key store and event log (the application's), exchange messages and mailboxes"
ASSUMPTIONS = ["an LMDB transaction happens whole or not at all and in order", "signature scheme idealised"]
