"""The real `Manager` and `Keeper` run over an idealised LMDB and idealised cryptography.  A script of key operations
(new sequence, rotation with or without erasing, moving to the final prefix, taking in foreign secrets, replaying them,
changing the authentication key, reopening) has its counts, flags and choices as solver variables; after each step what
the store holds, raw bytes included, and what the manager signs are compared with a plain account of which key sets were
promised, taken into use and erased.  Derivation paths of salted keys are formatted from symbolic indices and the solver
is asked for two places that share a path; signing runs with symbolic index positions."""
import ideal
from keri.app import keeping
from keri.app.keeping import Keeper, Manager, SaltyCreator, RandyCreator, riKey, Algos
from keri.core.coring import Diger, MtrDex, Verfer
from keri.core.signing import Signer, Salter
from keri.core.indexing import IdrDex, IdxSigDex, IdxBthSigDex, IdxCrtSigDex
from keri.kering import AuthError, DecryptError, KeriError

SEEDS = [Signer(raw=bytes([90 + i] * 32), transferable=False) for i in range(3)]
SALT = Salter(raw=b"0123456789abcdef").qb64


def auth(i):
    """(seed, aeid) number i, 0 is none"""
    return ("", "") if not i else (SEEDS[i - 1].qb64, SEEDS[i - 1].verfer.qb64)


class World:
    """a key store and an account of what it ought to hold"""

    def __init__(self, ctx, a=0, algo=Algos.salty):
        ideal.ORACLE = None
        self.ctx, self.a, self.algo = ctx, a, algo
        self.ks = Keeper(name="vt", temp=True, reopen=True)
        seed, aeid = auth(a)
        self.m = Manager(ks=self.ks, seed=seed or None, aeid=aeid or None, salt=SALT, algo=algo)
        self.seqs = {}     # pre -> dict(sets=[pubs], cur=int, gone=set())
        self.secrets = {}  # pub -> seed qb64

    def see(self):
        """learn secrets of keys made lately"""
        for pre, s in self.seqs.items():
            for pubs in s["sets"]:
                for p in pubs:
                    if p not in self.secrets:
                        g = self.ks.pris.get(p, decrypter=self.m.decrypter)
                        self.ctx.check(g is not None and g.verfer.qb64 == p, "private key of a new public key is missing or another's")
                        self.secrets[p] = g.qb64
        allp = [p for s in self.seqs.values() for pubs in s["sets"] for p in pubs]
        self.ctx.check(len(set(allp)) == len(allp), "two places have the same key")
        self.ctx.check(len(set(self.secrets.values())) == len(self.secrets), "two keys have the same secret")

    def incept(self, icount, ncount, **kw):
        self.m.ks = self.ks
        vs, ds = self.m.incept(icount=icount, ncount=ncount, temp=True, **kw)
        pre = vs[0].qb64
        sit = self.ks.sits.get(pre)
        self.seqs[pre] = dict(sets=[[v.qb64 for v in vs], list(sit.nxt.pubs)], cur=0, gone=set())
        self.ctx.check(len(vs) == icount and len(ds) == ncount, "number of keys made")
        self.promised(ds, sit.nxt.pubs)
        self.look()
        return pre

    def promised(self, digers, pubs):
        self.ctx.check([d.qb64 for d in digers] == [Diger(ser=p.encode()).qb64 for p in pubs], "digests given out are not those of the next keys")

    def rotate(self, pre, ncount, erase):
        s = self.seqs[pre]
        try:
            vs, ds = self.m.rotate(pre, ncount=ncount, temp=True, erase=erase)
        except ValueError:
            self.ctx.check(not s["sets"][-1], "rotation refused")
            self.look()
            return False
        self.ctx.check(bool(s["sets"][-1]), "rotated without next keys")
        self.ctx.check([v.qb64 for v in vs] == s["sets"][-1], "keys taken into use are not those promised")
        sit = self.ks.sits.get(pre)
        self.ctx.check(len(ds) == ncount == len(sit.nxt.pubs), "number of next keys")
        self.promised(ds, sit.nxt.pubs)
        s["sets"].append(list(sit.nxt.pubs))
        s["cur"] += 1
        if erase and s["cur"] >= 2:
            s["gone"] |= set(s["sets"][s["cur"] - 2])
        self.look()
        return True

    def move(self, old, new):
        self.m.move(old, new)
        self.seqs[new] = self.seqs.pop(old)
        self.look()

    def look(self):
        ctx, ks = self.ctx, self.ks
        self.see()
        for pre, s in self.seqs.items():
            sit = ks.sits.get(pre)
            c = s["cur"]
            kidx = [sum(len(x) for x in s["sets"][:j]) for j in range(len(s["sets"]))]
            ctx.check(sit.new.pubs == s["sets"][c] and sit.new.ridx == c and sit.new.kidx == kidx[c], "current set on record")
            ctx.check(sit.nxt.pubs == s["sets"][c + 1] and sit.nxt.ridx == c + 1 and sit.nxt.kidx == kidx[c + 1], "next set on record")
            ctx.check(sit.old.pubs == (s["sets"][c - 1] if c else []), "previous set on record")
            for j, pubs in enumerate(s["sets"]):
                got = ks.pubs.get(riKey(pre, j))
                ctx.check((list(got.pubs) if got else []) == pubs, "history of public keys")
                for p in pubs:
                    if p in s["gone"]:
                        ctx.check(ks.pris.get(p, decrypter=self.m.decrypter) is None, "key stays although erased")
                    else:
                        self.signs(p)
        self.sealed()

    def signs(self, p):
        try:
            x = self.m.sign(b"abc", pubs=[p], indexed=False)[0]
        except Exception as ex:
            return self.ctx.check(False, "key is not usable", repr(ex)[:100])
        self.ctx.check(x.verfer.qb64 == p and Verfer(qb64=p).verify(x.raw, b"abc"), "signed with another key")

    def raws(self):
        for name in ("gbls", "prms", "sits", "pris", "pres", "pubs"):
            sub = getattr(self.ks, name)
            for k, v in self.ks.getTopItemIter(db=sub.sdb):
                yield name, bytes(k), bytes(v)

    def sealed(self):
        """with an authentication key nothing secret in the clear, without one nothing sealed"""
        if not self.a:
            for name, k, v in self.raws():
                if name == "pris":
                    self.ctx.check(Signer(qb64b=v).qb64 in self.secrets.values(), "secret cannot be read back")
            return
        hide = [x.encode() for x in list(self.secrets.values()) + [SALT] + list(getattr(self, "salts", []))]
        for name, k, v in self.raws():
            self.ctx.check(not any(h in v for h in hide), "secret in the clear in the store", name)
            if name == "pris":
                self.ctx.check(v.startswith(MtrDex.X25519_Cipher_Seed.encode()), "secret is not sealed", name)

    def reopen(self):
        """another manager on the same store"""
        seed, aeid = auth(self.a)
        self.m = Manager(ks=self.ks, seed=seed or None, aeid=aeid or None)
        self.look()


def lifecycle(ctx, algo, a, plan):
    w = World(ctx, a, algo)
    pres = []
    for j, op in enumerate(plan):
        if op in "Ii":
            n = ctx.integer("ni%d" % j, 1, 2)
            k = ctx.integer("nn%d" % j, 0, 2)
            kw = {}
            if op == "i" and algo == Algos.salty:
                kw = dict(salt=Salter(raw=b"fedcba9876543210").qb64, stem=["one", "two"][ctx.choose("st%d" % j, range(2))])
                w.salts = [kw["salt"]]
            pres.append(w.incept(n, k, **kw))
        elif op in "R":
            i = ctx.integer("w%d" % j, 0, len(pres) - 1)
            k = ctx.integer("nr%d" % j, 0, 2)
            ctx.reach("rotated" if w.rotate(pres[i], k, ctx.boolean("e%d" % j).__bool__()) else "not")
        elif op == "M":
            new = Diger(raw=bytes([33 + j] * 32), code=MtrDex.Blake3_256).qb64
            w.move(pres[-1], new)
            pres[-1] = new
        elif op == "O":
            w.reopen()
    ctx.reach("end")


def authed(ctx, algo, a, b, before, after):
    """the authentication key changes from a to b"""
    w = World(ctx, a, algo)
    pres = []
    if before >= 1:
        pres.append(w.incept(ctx.integer("n", 1, 2), 1))
    if before >= 2:
        w.rotate(pres[0], 1, False)
        kw = dict(salt=Salter(raw=b"fedcba9876543210").qb64, stem="x") if algo == Algos.salty else {}
        w.salts = [kw["salt"]] if kw else []
        pres.append(w.incept(1, 2, **kw))
    how = ctx.choose("how", range(4))
    seed, aeid = auth(b)
    old = list(w.raws())
    if how == 0:      # as asked
        w.m.updateAeid(aeid, seed)
        w.a = b
        w.look()
        ctx.reach("changed")
    elif how == 1 and b and b != a:    # with the seed of another
        try:
            w.m.updateAeid(aeid, auth(3)[0])
            ctx.check(False, "changed with a seed that is not the new key's")
        except AuthError:
            pass
        ctx.check(list(w.raws()) == old, "store changed by a refused change")
        return ctx.reach("refused")
    elif how == 2 and a:    # a manager without the seed
        for sd in (None, auth(3)[0]):
            try:
                m = Manager(ks=w.ks, seed=sd, aeid=auth(a)[1])
                ctx.check(False, "opened without the seed")
            except AuthError:
                pass
        m = Manager(ks=w.ks, seed=auth(a)[0], aeid=auth(a)[1])
        m._seed = auth(3)[0]
        try:
            m.updateAeid(aeid, seed)
            ctx.check(False, "changed by one who has not the seed")
        except AuthError:
            pass
        ctx.check(list(w.raws()) == old, "store changed by a refused change")
        return ctx.reach("refused")
    elif how == 3:     # by opening with another
        if a:
            return
        try:
            w.m = Manager(ks=w.ks, seed=seed or None, aeid=aeid or None)
            ctx.check(not b, "opened with another authentication key") if w.m.aeid != (aeid or None) and b else None
        except AuthError:
            pass
        return
    else:
        return
    for j in range(after):
        op = ctx.choose("op%d" % j, range(3))
        if op == 0 and pres:
            w.rotate(pres[ctx.choose("p%d" % j, range(len(pres)))], 1, True)
        elif op == 1:
            w.incept(1, 1)
        else:
            w.reopen()
    ctx.reach("end")


def ingested(ctx, algo, a, sizes, own):
    """secrets taken in from elsewhere, replayed and rotated"""
    w = World(ctx, a)
    sec = [[Signer(raw=bytes([10 * j + i + 1] * 32)) for i in range(n)] for j, n in enumerate(sizes)]
    pubs = [[s.verfer.qb64 for s in ss] for ss in sec]
    w.secrets = {s.verfer.qb64: s.qb64 for ss in sec for s in ss}
    iridx = ctx.integer("iridx", 0, len(sizes) - 1)
    ncount = ctx.integer("nc", 1, 2)
    kw = {}
    if own and algo == Algos.salty:
        kw = dict(salt=Salter(raw=b"fedcba9876543210").qb64, stem="x")
        w.salts = [kw["salt"]]
    if ctx.choose("other", range(2)):
        w.incept(1, 1)
    ipre, vss = w.m.ingest([[s.qb64 for s in ss] for ss in sec], iridx=iridx, ncount=ncount, algo=algo, temp=True, **kw)
    ctx.check([[v.qb64 for v in vs] for vs in vss] == pubs and ipre == pubs[0][0], "public keys of what was taken in")
    last = list(w.ks.pubs.get(riKey(ipre, len(sizes))).pubs)
    ctx.check(len(last) == ncount, "number of next keys")
    pubs.append(last)
    w.seqs[ipre] = dict(sets=pubs, cur=iridx, gone=set())
    w.look()
    vs, ds = w.m.replay(ipre, advance=False)
    ctx.check([v.qb64 for v in vs] == pubs[iridx], "replay in place")
    w.promised(ds, pubs[iridx + 1])
    cur = iridx
    erase = ctx.boolean("erase").__bool__()
    while cur < len(sizes) - 1:
        vs, ds = w.m.replay(ipre, advance=True, erase=erase)
        cur += 1
        w.seqs[ipre]["cur"] = cur
        if erase and cur >= 2:
            # what the store had as the set before the previous
            w.seqs[ipre]["gone"] |= set(pubs[cur - 2])
        ctx.check([v.qb64 for v in vs] == pubs[cur], "replayed set")
        w.promised(ds, pubs[cur + 1])
        w.look()
    try:
        w.m.replay(ipre, advance=True)
        ctx.check(False, "replayed past the end")
    except IndexError:
        pass
    w.look()
    w.rotate(ipre, 1, erase)
    w.rotate(ipre, 1, erase)
    ctx.reach("end")


def signing(ctx, n, ask, a):
    """ask: subset of what is given: i indices, o ondices, v verfers instead of pubs, n not indexed, m one key unknown, x a count too many"""
    w = World(ctx, a)
    pre = w.incept(n, 1)
    pubs = list(w.seqs[pre]["sets"][0])
    order = [ctx.choose("k%d" % j, range(n)) for j in range(2)]
    use = [pubs[i] for i in order]
    if "m" in ask:
        use[1] = Signer(raw=b"\x07" * 32).verfer.qb64
    ii = [ctx.integer("i%d" % j, -1, 4100) for j in range(2 + ("x" in ask))] if "i" in ask else None
    oo = None
    if "o" in ask:
        oo = [ctx.integer("o%d" % j, -1, 4100) if not ctx.choose("on%d" % j, range(2)) else None for j in range(2 + ("y" in ask))]
    kw = dict(verfers=[Verfer(qb64=p) for p in use]) if "v" in ask else dict(pubs=use)
    ok = "m" not in ask and "x" not in ask and "y" not in ask
    want = []
    for j in range(2):
        i = ii[j] if ii else j
        o = oo[j] if oo else i
        want.append((i, o))
    try:
        out = w.m.sign(b"abc", indexed="n" not in ask, indices=ii, ondices=oo, **kw)
    except (ValueError, KeriError) as ex:
        if ok and "n" not in ask:
            bad = False
            for i, o in want:
                bad = bad | (i < 0) | (i > 4095) | ((o < 0) | (o > 4095) if o is not None else False)
            ctx.check(bad, "signing refused", repr(ex)[:80])
        else:
            ctx.check(not ok, "signing refused")
        return ctx.reach("refused")
    ctx.check(ok, "signed although it cannot")
    ctx.check(len(out) == 2, "number of signatures")
    for j, x in enumerate(out):
        ctx.check(x.verfer.qb64 == use[j] and Verfer(qb64=use[j]).verify(x.raw, b"abc"), "signed with another key")
        if "n" in ask:
            continue
        i, o = want[j]
        ctx.check((x.index == i) & (i >= 0), "signature index")
        if o is None:
            ctx.check((x.ondex is None) and x.code in IdxCrtSigDex, "signature for the current list only")
        else:
            ctx.check((x.ondex == o) & (o >= 0), "other signature index")
            ctx.check(x.code in IdxBthSigDex, "signature for both lists")
    ctx.reach("signed")


class Paths:
    """stands for the salter and keeps the paths"""

    def __init__(self):
        self.got = []

    def signer(self, path, **kw):
        self.got.append(path)
        return path


def wid(x):
    return 1 if x < 16 else 2 if x < 256 else 3


def paths(ctx, same):
    """two keys of salted sequences: places (pidx, ridx, kidx), set sizes are at least one so kidx grows with ridx"""
    hi = 300
    p = [ctx.integer("p%d" % j, 0, hi) for j in range(1 if same else 2)]
    r = [ctx.integer("r%d" % j, 0, hi) for j in range(2)]
    k = [ctx.integer("k%d" % j, 0, hi) for j in range(2)]
    off = [ctx.integer("x%d" % j, 0, 2) for j in range(2)] if same else [0, 0]
    for j in range(2):
        ctx.assume(k[j] >= r[j])
    if same:
        # at least one key in each set between
        ctx.assume(r[0] < r[1])
        ctx.assume(k[1] - k[0] >= r[1] - r[0])
        ctx.assume(k[0] + off[0] < k[1])
    else:
        ctx.assume(p[0] < p[1])
    got = []
    for j in range(2):
        c = SaltyCreator(salt=SALT)
        c.salter = rec = Paths()
        rec.tier = "low"
        c.create(codes=[MtrDex.Ed25519_Seed] * 3, pidx=p[0 if same else j], ridx=r[j], kidx=k[j])
        got.append(rec.got)
    for x in range(3):
        for y in range(3):
            if same:
                clash = (got[0][x] == got[1][y]) & (k[0] + x < k[1])
                ctx.check(clash == False, "two keys of one identifier have the same path")
            else:
                clash = got[0][x] == got[1][y]
                ctx.known("salty-path-collision", clash & (((wid(p[0]) == wid(p[1])) & (wid(r[0]) == wid(r[1]))) == False))
                ctx.check(clash == False, "keys of two identifiers have the same path")
    ctx.reach("end")


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, exp, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=exp, weight=weight))
    for algo in (Algos.salty, Algos.randy):
        for a in (0, 1):
            for plan in ("IRRR", "IiR", "II", "IMRO", "IROR") + (("IRRRR", "IRIRR", "IMRRR", "iIRRO") if T else ()):
                add("lifecycle-%s-%d-%s" % (algo, a, plan), lifecycle, ["end"] + (["rotated", "not"] if "R" in plan else []), 5, algo=algo, a=a, plan=plan)
        for a in (0, 1):
            for b in (0, 1, 2):
                for before in (0, 1, 2):
                    add("auth-%s-%d%d-%d" % (algo, a, b, before), authed, ["changed", "end"], 3, algo=algo, a=a, b=b, before=before, after=2 if not T else 3)
        for a in (0, 1):
            for sizes in ([1], [1, 2], [2, 1, 1]) + (([1, 1, 2, 1], [3, 2, 1]) if T else ()):
                for own in (0, 1):
                    add("ingest-%s-%d-%s-%d" % (algo, a, "".join(map(str, sizes)), own), ingested, ["end"], 2, algo=algo, a=a, sizes=sizes, own=own)
    for same in (True, False):
        add("paths-%s" % ("same" if same else "other"), paths, ["end"], 9, same=same)
    for a in (0, 1):
        for ask in ("", "n", "v", "i", "io", "o", "vio", "m", "ix", "ioy", "vm", "vn"):
            acc = not set("mxy") & set(ask)
            ref = bool(set("mxyio") & set(ask))
            add("sign-%s-%d" % (ask or "plain", a), signing, (["signed"] if acc else []) + (["refused"] if ref else []), 1, n=2, ask=ask, a=a)
    return out


BOUNDS = "2 sequences with set sizes 0 to 2, scripts of up to 4 (thorough 5) operations; two authentication keys and none, with 0 to 3 sets of keys present at the change; up to 3 (thorough 4) ingested sets; signature indices -1 to 4100"
OUTSIDE = "Ed25519 keys only; crashes between the writes of one operation; strength of the cipher and of stretching"
ASSUMPTIONS = ["signature scheme, sealed boxes and stretching idealised"]
