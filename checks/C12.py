"""Kever.update with a rotation whose keys, thresholds, signature positions, prior positions and signature validity
are symbolic, after an inception (or a rotation) that committed to digests of next keys."""
from checks.kel import *
from fractions import Fraction
from keri.core.coring import DigDex
from keri.kering import ValidationError, MissingSignatureError

CODES = {"A": "same", "B": "none", "2A": "dual", "2B": "none"}


def met(thold, n, on):
    """threshold by its definition; on[i] whether position i counts"""
    if isinstance(thold, list):
        tot = 0
        for i in range(n):
            f = Fraction(thold[i])
            tot = tot + (60 * f.numerator // f.denominator) * on[i]
        return tot >= 60
    tot = 0
    for i in range(n):
        tot = tot + on[i]
    return tot >= (int(thold, 16) if isinstance(thold, str) else thold)


def rotation(ctx, nd, nt, kns, ns, codes, digcode, after, order):
    """nd committed digests with threshold nt; rotation with nk keys, ns signatures."""
    db = open_db()
    allgood()
    dg = [Diger(ser=key(i).qb64b, code=digcode).qb64 for i in range(1, nd + 1)]      # commits keys 1..nd
    if order:
        dg = dg[::-1]
    s = incept(keys=keys(20), ndigs=dg if not after else digs(21), nsith=nt if not after else "1", **JSON)
    kv = Kever(serder=s, sigers=[sig()], db=db)
    db.kevers[s.pre] = kv
    if after:
        r = rotate(s.pre, keys(21), s.said, sn=1, ndigs=dg, nsith=nt, **JSON)
        kv.update(r, [sig()])
        last = r
    else:
        last = s
    committed = [order and (nd - o) or (o + 1) for o in range(nd)]          # key number behind digest o
    kn = list(ctx.choose("keys", kns))
    nk = len(kn)
    kt = ctx.integer("kt", 1, nk + 1)
    base = rotate(s.pre, keys(*kn), last.said, sn=last.sn + 1, isith="1", ndigs=digs(30), **JSON)
    e = body(base, kt="%x" % kt, said=nosaid(0))
    sigers = []
    for j in range(ns):
        code = ctx.choose("code%d" % j, codes)
        i = ctx.integer("i%d" % j, 0, nk)
        if CODES[code] == "dual":
            o = ctx.integer("o%d" % j, 0, nd)
            sigers.append((sig(i, n=j + 1, ondex=o, code=code), i, o))
        else:
            sigers.append((sig(i, n=j + 1, code=code), i, i if CODES[code] == "same" else None))
    good = [ctx.boolean("good%d" % j) for j in range(ns)]
    ideal.ORACLE = lambda vk, msg, sg: good[sg[0] - 1] if bytes(vk)[0] - 1 in kn else False
    on = []
    for i in range(nk):
        h = False
        for (sg, si, so), g in zip(sigers, good):
            h = h | ((si == i) & g)
        on.append(h)
    ex = []
    for o in range(nd):
        h = False
        for (sg, si, so), g in zip(sigers, good):
            if so is None:
                continue
            for i in range(nk):
                if kn[i] == committed[o]:
                    h = h | ((si == i) & (so == o) & g)
        ex.append(h)
    okay = met(kt, nk, on) & (kt <= nk) & met(nt, nd, ex)
    st = kstate(kv)
    before = (kel(db, s.pre), fel(db, s.pre), drec(db.states.get(keys=s.pre)))
    try:
        kv.update(e, [x[0] for x in sigers])
    except (ValidationError, ValueError) as err:
        ctx.check(not okay, "rightful rotation refused", lambda: repr(err)[:100])
        ctx.check((kel(db, s.pre), fel(db, s.pre), drec(db.states.get(keys=s.pre))) == before and kstate(kv) == st,
                  "refused rotation changed the record")
        if isinstance(err, MissingSignatureError):
            esc = [(on, val) for _, on, val in db.pses.getAllItemIter(keys=s.pre)]
            ctx.check(esc == [(e.sn, e.said)], "partly signed rotation not kept")
            ctx.check(kt <= nk, "hopeless rotation kept")
            ctx.reach("kept")
        else:
            ctx.reach("refused")
        return
    ctx.check(okay, "rotation accepted without enough signatures of new keys or without enough exposed committed keys")
    ctx.check([v.qb64 for v in kv.verfers] == keys(*kn) and kv.sn == last.sn + 1, "keys after rotation")
    ctx.reach("taken")


def commitless(ctx):
    """With no next digests no rotation is ever accepted; interactions neither."""
    db = open_db()
    allgood()
    s = incept(keys=keys(20), ndigs=[], nsith="0", code=MtrDex.Blake3_256, **JSON)
    kv = Kever(serder=s, sigers=[sig()], db=db)
    sn = ctx.integer("sn", 0, 100)
    ilk = ctx.choose("ilk", ["rot", "ixn"])
    base = rotate(s.pre, keys(1), s.said, sn=1, ndigs=[], **JSON) if ilk == "rot" else interact(s.pre, s.said, sn=1, **JSON)
    e = body(base, s="%x" % sn, said=nosaid(0))
    try:
        kv.update(e, [sig(), sig(0, n=2, ondex=0, code="2A")])
    except ValidationError:
        ctx.reach("refused")
        return
    ctx.check(False, "event accepted for an identifier that committed to no next keys")


def cases(tier):
    T = tier == "thorough"
    out = [dict(name="commitless", fn=commitless, expect=["refused"])]
    B3, S3 = DigDex.Blake3_256, DigDex.SHA3_256

    def add(nd, nt, kns, ns, codes, digcode=B3, after=False, order=False, labels=("taken", "kept", "refused")):
        for kn in kns:
            out.append(dict(name="rot-%d-%s-%s-%d-%s%s%s%s" % (nd, "".join(nt).replace("/", ""), "".join(map(str, kn)), ns, "".join(codes),
                                                              "-sha" if digcode == S3 else "", "-after" if after else "", "-rev" if order else ""),
                            fn=rotation, params=dict(nd=nd, nt=nt, kns=[kn], ns=ns, codes=codes, digcode=digcode, after=after, order=order),
                            expect=["kept", "refused"] + (["taken"] if len([k for k in kn if k <= nd]) >= (int(nt) if not isinstance(nt, list) else 1) and "taken" in labels else []),
                            weight=(nd + len(kn)) * len(codes) ** ns))
    add(1, "1", [(1,), (2,)], 1, list(CODES))
    add(1, "1", [(1,), (2,)], 2, ["A", "2A"])
    add(2, "1", [(1, 2), (2, 1), (3, 1), (2, 3)], 1, ["A", "B", "2A"], after=True)
    add(2, "2", [(1, 2), (2, 1)], 2, ["A", "2A"])
    add(2, "2", [(1, 2), (3, 1)], 2, ["2A", "B"], order=True)
    add(2, "2", [(1,)], 1, ["A"])
    add(2, ["1/2", "1/2"], [(1, 2), (1, 3)], 2, ["2A"], digcode=S3, labels=("taken",) if False else ())
    add(2, ["1", "1/2"], [(1, 3), (3, 2)], 2, ["2A"], after=True, labels=())
    add(2, "2", [(1, 3, 2)], 2, ["2A"])
    add(3, "2", [(3, 1)], 2, ["2A"])
    if T:
        add(2, "2", [(1, 2), (2, 1), (1, 3), (3, 2)], 2, list(CODES))
        add(3, "2", [(1, 2, 3), (3, 4, 1)], 3, ["2A"])
        add(3, "3", [(1, 2, 3), (2, 3, 1)], 3, ["A", "2A"])
        add(3, ["1/2", "1/3", "1/2"], [(1, 2, 3), (4, 3, 1)], 3, ["2A"], order=True, labels=())
        add(2, "2", [(1, 3, 2), (2, 1, 3)], 3, ["A", "2A"], after=True)
        add(2, "1", [(1, 2), (3, 1)], 2, list(CODES), digcode=S3, after=True)
    return out


BOUNDS = "1 to 3 committed digests (numeric and weighted thresholds, two digest algorithms, any order), rotations with 19 (thorough 35) lists of 1 to 3 distinct keys drawn from the committed ones and others, 1 to 2 signatures (thorough 3) with any position, any prior position, four index codes, any validity; signing threshold 1 to one more than the keys"
OUTSIDE = "key lists naming one key twice; more keys and signatures"
ASSUMPTIONS = ["digests have no collisions, signature scheme idealised", "an event's said is unique to its body (C08)"]
