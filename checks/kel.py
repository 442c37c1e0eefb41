"""Shared harness pieces: keys, event bodies with symbolic fields, observation of databases."""
import ideal
from keri.core.coring import Verfer, Diger, MtrDex
from keri.core.indexing import Siger, IdrDex
from keri.core.serdering import SerderKERI
from keri.core import eventing
from keri.core.eventing import incept, rotate, interact, Kever, Kevery
from keri.db.basing import Baser
from keri.kering import Kinds, Vrsn_1_0, Vrsn_2_0, Ilks

JSON = dict(kind=Kinds.json, version=Vrsn_1_0)


def key(i, trans=True):
    return Verfer(raw=bytes([i + 1] * 32), code=MtrDex.Ed25519 if trans else MtrDex.Ed25519N)


def keys(*ii):
    return [key(i).qb64 for i in ii]


def digs(*ii):
    return [Diger(ser=key(i).qb64b).qb64 for i in ii]


def wit(i):
    return key(100 + i, trans=False).qb64


def nosaid(i):
    """a digest of nothing known"""
    return Diger(raw=bytes([200 + i] * 32), code=MtrDex.Blake3_256).qb64


def open_db(name="vt"):
    return Baser(name=name, temp=True, reopen=True)


def body(serder, said=None, **fields):
    """The event with the named fields overwritten (symbolic values allowed).  The said stands for the digest
    of whatever the body is; by default the one the unmodified body has."""
    sad = serder.sad
    for k, v in fields.items():
        sad[k] = v
    if said is not None:
        sad["d"] = said
    sad["v"] = "%s%06x_" % (sad["v"][:10], len(serder.dumps(sad, sad["v"][6:10])))
    return SerderKERI(sad=sad, verify=False)


def sig(index=0, n=1, ondex=None, code=None):
    kw = dict(ondex=ondex) if ondex is not None else {}
    if code is not None:
        kw["code"] = code
    return Siger(raw=bytes([n] * 64), index=index, **kw)


def allgood():
    ideal.ORACLE = lambda vk, msg, sig: True


def by_key(good):
    """good: {raw key: validity}; every other key's signatures are bad"""
    def f(vk, msg, sig):
        for k, v in good.items():
            if bytes(k) == bytes(vk):
                return v
        return False
    ideal.ORACLE = f


def kel(db, pre):
    """[(sn, said)] in order, every event ever logged per sequence number"""
    return [(on, val) for _, on, val in db.kels.getAllItemIter(keys=pre)]


def fel(db, pre):
    return [val for _, on, val in db.fels.getAllItemIter(keys=pre)]


def kstate(kv):
    """what a user sees of a key state"""
    return dict(sn=kv.sn, d=kv.serder.said, ilk=kv.ilk, keys=[v.qb64 for v in kv.verfers], ndigs=list(kv.ndigs),
                kt=kv.tholder.sith, nt=kv.ntholder.sith, toad=kv.toader.num, wits=list(kv.wits), fn=kv.fn,
                est=(kv.lastEst.s, kv.lastEst.d), delpre=kv.delpre, trans=kv.transferable)


def same(a, b):
    r = len(a) == len(b)
    for k in a:
        r = r & (a[k] == b[k])
    return r


def drec(rec):
    return dict(i=rec.i, s=rec.s, p=rec.p, d=rec.d, f=rec.f, et=rec.et, kt=rec.kt, k=list(rec.k), nt=rec.nt, n=list(rec.n),
                bt=rec.bt, b=list(rec.b), es=rec.ee.s, ed=rec.ee.d, di=rec.di)
