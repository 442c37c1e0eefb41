"""The real Habery and Hab over key store and event database, through histories of making, rotating, interacting, removing and opening again, with configurations that are
right and wrong in every way that the arguments allow. Oracle: which configurations are valid and the key state each step leads to, worked out by itself. Whatever
is made must be taken in by a stranger; whatever is refused must leave everything as it was and not stand in the way of the next attempt."""
from checks.kel import *
from fractions import Fraction
from keri import kering
from keri.app.keeping import Keeper, Algos
from keri.app.habbing import Habery
from keri.app import habbing
from keri.core.signing import Salter
from keri.core.parsing import Parser

for module in (habbing, eventing):
    module.print = lambda *pa, **kwa: None

REFUSED = (ValueError, kering.KeriError)
SALT = "0AAwMTIzNDU2Nzg5YWJjZGVm"
W = [wit(i) for i in range(1, 5)]


class Conf:
    """a configuration file without content"""
    opened, temp = True, True

    def get(self):
        return {}

    def close(self, clear=False):
        pass


def amount(sith, n):
    """whether a threshold fits so many keys"""
    if isinstance(sith, str):
        return int(sith, 16) <= n
    return len(sith) <= n and sum(Fraction(w) for w in sith) >= 1


def ample(n):
    """enough of n witnesses that any two such sets share an honest one, and that many are there with as many faulty as n allows"""
    return {0: 0, 1: 1, 2: 2, 3: 3, 4: 3}.get(n, 0)


class World:
    def __init__(self, ctx, algo):
        ideal.ORACLE = None
        self.ctx = ctx
        self.ks = Keeper(name="vt", temp=True, reopen=True)
        self.db = open_db("vt")
        self.kw = dict(algo=algo, salt=SALT)
        self.other = open_db("other")
        self.okvy = Kevery(db=self.other, lax=False, local=False)
        self.exp = {}    # name -> expected state
        self.waits = set()    # names of those a stranger cannot take in without receipts or seals
        self.open()

    def open(self):
        self.hby = Habery(name="vt", temp=True, ks=self.ks, db=self.db, cf=Conf(), **self.kw)

    def hab(self, name):
        return self.hby.habByName(name)

    def seen(self, name):
        k = self.hab(name).kever
        return dict(sn=int(k.sner.num), keys=[v.qb64 for v in k.verfers], next=[d.qb64 for d in k.ndigers], sith=k.tholder.sith, nsith=k.ntholder.sith, toad=int(k.toader.num), wits=list(k.wits),
                    said=k.serder.said, est=k.estOnly, delpre=k.delpre)

    def store(self):
        return (sorted(str(k) + str(v.hid) + str(v.name) for k, v in self.db.habs.getTopItemIter()), sorted(str(k) + str(v) for k, v in self.db.names.getTopItemIter()),
                sorted(str(p) for p in self.db.prefixes), sorted(self.hby.habs))

    def make(self, name, **kw):
        icount, ncount = kw.get("icount", 1), kw.get("ncount", kw.get("icount", 1))
        isith, nsith = kw.get("isith"), kw.get("nsith")
        nsith = nsith if nsith is not None else isith
        isith = isith if isith is not None else "%x" % max(1, -(-icount // 2))
        nsith = nsith if nsith is not None else "%x" % max(0, -(-ncount // 2))
        wits = kw.get("wits", [])
        toad = kw.get("toad", ample(len(wits)))
        ok = (name not in self.exp and icount > 0 and amount(isith, icount) and int_(isith) != 0 and amount(nsith, ncount) and len(set(wits)) == len(wits) and
              (1 <= toad <= len(wits) if wits else toad == 0) and "garbage" not in wits)
        if not kw.get("transferable", True):
            ncount, nsith = 0, "0"
            ok = ok and icount == 1 and not wits
        before = self.store()
        try:
            hab = self.hby.makeHab(name, **kw)
        except REFUSED:
            self.ctx.check(not ok, "valid identifier refused", lambda: str(kw))
            self.ctx.check(self.store() == before, "records of a refused identifier", lambda: str((self.store(), before)))
            return "refused"
        self.ctx.check(ok, "senseless identifier made", lambda: str(kw))
        s = self.seen(name)
        self.ctx.check((s["sn"], len(s["keys"]), len(s["next"]), s["sith"], s["nsith"], s["toad"], s["wits"], s["est"], s["delpre"]) ==
                       (0, icount, ncount, isith, nsith, toad, wits, kw.get("estOnly", False), kw.get("delpre")), "identifier made", lambda: str(s))
        self.ctx.check(self.hby.habs[hab.pre] is hab and hab.pre in self.hby.prefixes and hab.accepted, "identifier is not there")
        self.exp[name] = s
        self.told(name, hab.msgOwnInception(framed=True))
        return "done"

    def rotate(self, name, **kw):
        hab, e = self.hab(name), self.exp[name]
        ncount = kw.get("ncount", len(e["next"]))
        isith = kw.get("isith", e["nsith"])
        nsith = kw.get("nsith", isith)
        cuts, adds = kw.get("cuts", []), kw.get("adds", [])
        wits = [w for w in e["wits"] if w not in cuts] + adds
        toad = kw.get("toad", e["toad"] if not cuts and not adds else ample(len(wits)))
        ok = (e["next"] and amount(isith, len(e["next"])) and int_(isith) != 0 and amount(nsith, ncount) and all(c in e["wits"] for c in cuts) and len(set(cuts)) == len(cuts) and
              len(set(adds)) == len(adds) and not any(a in e["wits"] for a in adds) and (1 <= toad <= len(wits) if wits else toad == 0) and "garbage" not in adds)
        try:
            msg = hab.rotate(framed=True, **kw)
        except REFUSED:
            self.ctx.check(not ok, "valid rotation refused", lambda: str(kw))
            self.kept()
            return "refused"
        self.ctx.check(ok, "senseless rotation made", lambda: str(kw))
        s = self.seen(name)
        self.ctx.check(dict(s, keys=0, next=0, said=0) == dict(sn=e["sn"] + 1, keys=0, next=0, sith=isith, nsith=nsith, toad=toad, wits=wits, said=0, est=e["est"], delpre=e["delpre"]), "key state rotated to",
                       lambda: str(s))
        self.ctx.check([Diger(ser=k.encode()).qb64 for k in s["keys"]] == e["next"], "keys are not those promised")
        self.ctx.check(len(s["next"]) == ncount, "number of next keys", lambda: str((len(s["next"]), ncount)))
        self.exp[name] = s
        self.told(name, msg)
        return "done"

    def interact(self, name, data=None):
        hab, e = self.hab(name), self.exp[name]
        ok = bool(e["next"]) and not e["est"]
        try:
            msg = hab.interact(data=data, framed=True)
        except REFUSED:
            self.ctx.check(not ok, "valid interaction refused")
            self.kept()
            return "refused"
        self.ctx.check(ok, "senseless interaction made")
        s = self.seen(name)
        self.ctx.check(dict(s, said=0) == dict(e, sn=e["sn"] + 1, said=0), "key state after interaction")
        self.ctx.check(hab.kever.serder.ked["a"] == (data or []), "seals")
        self.exp[name] = s
        self.told(name, msg)
        return "done"

    def told(self, name, msg):
        """what a stranger makes of it"""
        s = self.exp[name]
        Parser(framed=True, kvy=self.okvy, local=False).parse(ims=bytearray(msg))
        pre = self.hab(name).pre
        if name in self.waits or s["wits"] or s["delpre"]:
            # its receipts and seals are not here
            self.waits.add(name)
            self.kept()
            return
        o = self.other.kevers.get(pre)
        self.ctx.check(o is not None and o.serder.said == s["said"] and [d.qb64 for d in o.ndigers] == s["next"], "not taken in by a stranger")
        self.kept()

    def kept(self):
        """every identifier is as expected, and can sign"""
        for name, e in self.exp.items():
            hab = self.hab(name)
            self.ctx.check(hab is not None and hab.name == name, "identifier is gone")
            s = self.seen(name)
            self.ctx.check(s == e, "key state of an identifier changed", lambda: str((name, s, e)))
            sigers = hab.sign(ser=b"ser")
            self.ctx.check([x.verfer.qb64 for x in sigers] == e["keys"] and [x.index for x in sigers] == list(range(len(e["keys"]))), "signing keys")
            sit = self.ks.sits.get(hab.pre)
            self.ctx.check([Diger(ser=p.encode()).qb64 for p in sit.nxt.pubs] == e["next"], "next keys of the key store are not those promised")
        self.ctx.check(sorted(h.pre for h in self.hby.habs.values()) == sorted(self.hab(n).pre for n in self.exp), "identifiers")
        self.ctx.check(sorted(self.hby.prefixes) == sorted(h.pre for h in self.hby.habs.values()), "own identifiers")


def int_(sith):
    return int(sith, 16) if isinstance(sith, str) else 1


MAKES = dict(
    one=dict(), two=dict(icount=2), pair=dict(icount=2, isith="2"), three=dict(icount=3, ncount=2, isith="2", nsith="1"), weights=dict(icount=2, isith=["1/2", "1/2"]),
    fixed=dict(ncount=0, nsith="0"), nontrans=dict(transferable=False), est=dict(estOnly=True), wits=dict(wits=W[:3]), wit1=dict(wits=W[:1], toad=1), deleg=dict(delpre=nosaid(3)),
    high=dict(isith="2"), zero=dict(isith="0"), nhigh=dict(icount=2, nsith="3"), heavy=dict(icount=1, isith=["1/2", "1/2"]), light=dict(icount=2, isith=["1/2", "1/4"]), toad=dict(toad=1),
    toadhigh=dict(wits=W[:2], toad=3), toadlow=dict(wits=W[:2], toad=0), dup=dict(wits=[W[0], W[0]]), garbage=dict(wits=["garbage"], toad=1), nowit=dict(transferable=False, wits=W[:1]),
    none=dict(icount=0), nnone=dict(ncount=0, isith="1"), many=dict(transferable=False, icount=2))
GOOD = [n for n in MAKES if n in ("one", "two", "pair", "three", "weights", "fixed", "nontrans", "est", "wits", "wit1", "deleg")]
BAD = [n for n in MAKES if n not in GOOD]
FEW = ["high", "nhigh", "toad", "garbage", "none", "many"]

STEPS = dict(
    rot=dict(), one=dict(ncount=1, nsith="1"), two=dict(ncount=2), three=dict(ncount=3, nsith=["1/2", "1/2", "1/2"]), last=dict(ncount=0, nsith="0"),
    high=dict(isith="3"), zero=dict(isith="0"), nhigh=dict(ncount=3, nsith="4"), nweights=dict(ncount=3, nsith=["1/2"] * 4), toad=dict(ncount=3, toad=7), cut=dict(cuts=[W[0]]), add=dict(adds=[W[3]]), swap=dict(cuts=[W[0]], adds=[W[3]], toad=2),
    dup=dict(adds=[W[3], W[3]]), have=dict(adds=[W[0]]), garbage=dict(adds=["garbage"], toad=1))


def step(ctx, w, name, s):
    if s == "open":
        w.open()
        w.kept()
        return "done"
    if s == "ixn":
        return w.interact(name)
    if s == "seal":
        return w.interact(name, data=[dict(d=nosaid(5))])
    return w.rotate(name, **STEPS[s])


def history(ctx, algo, make, n, steps):
    w = World(ctx, algo)
    if w.make("a", **MAKES[make]) == "refused":
        ctx.check(make not in GOOD, "valid identifier refused")
        ctx.reach("refused")
        return
    for i in range(n):
        ctx.reach(step(ctx, w, "a", ctx.choose("s%d" % i, steps)))
    w.open()
    w.kept()
    w.rotate("a")
    ctx.reach("end")


def again(ctx, algo, deep):
    """a refused identifier does not stand in the way of another attempt, of others, or of opening again"""
    w = World(ctx, algo)
    w.make("a")
    bad = ctx.choose("bad", BAD if deep else FEW)
    ctx.check(w.make("b", **MAKES[bad]) == "refused", "senseless identifier made")
    then = ctx.choose("then", ["no", "open"] + (BAD if deep else FEW[:2]))
    if then == "open":
        w.open()
        w.kept()
    elif then != "no":
        ctx.check(w.make("b", **MAKES[then]) == "refused", "senseless identifier made")
    good = ctx.choose("good", GOOD if deep else ["two", "nontrans", "wits"])
    ctx.check(w.make("b", **MAKES[good]) == "done", "identifier cannot be made after a refused attempt")
    w.rotate("a")
    w.rotate("b")
    w.open()
    w.kept()
    ctx.reach("done")


def names(ctx, algos):
    """one name, one identifier"""
    w = World(ctx, Algos.salty)
    w.make("a", algo=algos[0])
    ctx.check(w.make("a", algo=algos[1], **MAKES[ctx.choose("m", ["one", "two", "nontrans", "wits"])]) == "refused", "name given twice")
    if ctx.boolean("other"):
        w.make("b", algo=algos[1])
    w.open()
    w.kept()
    w.rotate("a")
    ctx.reach("done")


def several(ctx):
    """steps of one do nothing to the others; a removed one is gone"""
    w = World(ctx, Algos.salty)
    w.make("a", icount=2)
    w.make("b", ncount=2)
    for i in range(2):
        step(ctx, w, ctx.choose("n%d" % i, ["a", "b"]), ctx.choose("s%d" % i, ["rot", "high", "ixn", "toad", "open"]))
    gone = ctx.choose("gone", ["a", "b"])
    ctx.check(w.hby.deleteHab("c") is False, "unknown identifier removed")
    ctx.check(w.hby.deleteHab(gone) is True, "identifier not removed")
    del w.exp[gone]
    w.kept()
    ctx.check(w.hab(gone) is None, "removed identifier is there")
    w.open()
    ctx.check(w.hab(gone) is None, "removed identifier is there again")
    w.kept()
    ctx.reach("done")


def enough(ctx, most):
    """the threshold of witnesses worked out when none is given, for any number of them"""
    n = ctx.integer("n", 0, most)
    weak = ctx.boolean("weak")
    m = eventing.ample(n, weak=weak)
    ctx.check((m == 0 and n == 0) or (1 <= m and m <= n), "outside of what is there")
    # as many as f may be faulty: n >= 3f + 1
    f = ctx.integer("f", 0, most)
    ctx.assume(3 * f + 1 <= n)
    ctx.check(2 * m >= n + f + 1, "two sets share no honest one")
    if not weak:
        ctx.check(m >= n - f or f == 0 or 3 * (f + 1) + 1 <= n, "less than those that stay")
    g = eventing.ample(n, f=f, weak=weak)
    ctx.check(1 <= g and g <= n and 2 * g >= n + f + 1, "two sets share no honest one, of a number of faulty ones that is given")
    ctx.check(g <= n - f or f == 0, "more than stay")
    ctx.reach("done")


def toofew(ctx, most):
    """a number of faulty witnesses that is too large is refused"""
    n, f = ctx.integer("n", 1, most), ctx.integer("f", 1, most)
    ctx.assume(n < 3 * f + 1)
    try:
        eventing.ample(n, f=f, weak=ctx.boolean("weak"))
    except ValueError:
        ctx.reach("refused")
        return
    ctx.check(False, "accepted")


def limit(ctx, n):
    """every threshold of witnesses"""
    w = World(ctx, Algos.salty)
    toad = ctx.choose("toad", list(range(8)) + [16, 255])
    try:
        hab = w.hby.makeHab("a", wits=W[:n], toad=toad)
    except REFUSED:
        ctx.check(toad > n or (n > 0 and toad == 0), "valid threshold refused")
        ctx.check(not w.hby.habs and not list(w.db.names.getTopItemIter()) and not list(w.db.habs.getTopItemIter()), "records of a refused identifier")
        ctx.reach("refused")
        return
    ctx.check(toad <= n and (n == 0 or toad >= 1), "threshold out of bounds")
    ctx.check(hab.kever.toader.num == toad, "threshold of another")
    ctx.reach("done")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(cname, fn, expect, weight=1, **params):
        out.append(dict(name=cname, fn=fn, params=params, expect=expect, weight=weight))
    plain = ["rot", "one", "two", "three", "last", "high", "nhigh", "nweights", "toad", "add", "ixn", "open"]
    witty = ["rot", "cut", "add", "swap", "dup", "have", "garbage", "toad", "zero", "seal"]
    for algo in (Algos.salty, Algos.randy):
        for m in MAKES:
            if m not in GOOD:
                if algo == Algos.salty or T:
                    add("history-%s-%s" % (algo, m), history, ["refused"], algo=algo, make=m, n=0, steps=[])
                continue
            if algo == Algos.randy and m not in ("two", "wits") and not T:
                continue
            steps = witty if m in ("wits", "wit1") else plain
            add("history-%s-%s" % (algo, m), history, ["end"], algo=algo, make=m, n=3 if T else 2, steps=steps, weight=10)
        add("again-%s" % algo, again, ["done"], algo=algo, deep=T, weight=12)
    for a in (Algos.salty, Algos.randy):
        for b in (Algos.salty, Algos.randy):
            add("names-%s-%s" % (a, b), names, ["done"], algos=[a, b])
    add("several", several, ["done"], weight=6)
    add("ample", enough, ["done"], most=2 ** 16 if T else 1000, weight=3)
    add("ample-few", toofew, ["refused"], most=2 ** 16 if T else 1000, weight=3)
    for n in range(4):
        add("limit-%d" % n, limit, ["done", "refused"], n=n)
    return out


BOUNDS = ("identifiers made in 25 ways (thresholds, weights, counts, witnesses, delegated, nontransferable, establishment only; 14 of them senseless), followed by 2 (3) of 12 steps "
          "(rotations right and wrong in their thresholds, counts and witnesses, interactions, opening again); refused attempts before good ones; one name twice; two identifiers "
          "and removal; thresholds of up to 3 witnesses; thresholds worked out for any number of witnesses up to 1000 (65536)")
OUTSIDE = "group and remotely signed identifiers; namespaces; configuration files; ingested keys (C26); stops in between (C24)"
ASSUMPTIONS = ["digests and stretching of salts never collide", "ideal signatures"]
