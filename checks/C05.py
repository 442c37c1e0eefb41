"""verifySigs and validateSigs over symbolic signer positions, codes and signature validity (an oracle: one
unconstrained boolean per key and signature, false for any other message)."""
import ideal
from keri.core import eventing
from keri.core.coring import Verfer, Tholder, MtrDex
from keri.core.indexing import Siger
from keri.core.eventing import verifySigs, validateSigs, incept
from keri.kering import ValidationError

CODES = {"A": False, "B": False, "2A": True, "2B": False}


def world(ctx, n, m, codes):
    verfers = [Verfer(raw=bytes([i + 1] * 32), code=MtrDex.Ed25519) for i in range(n)]
    sigs = []
    for j in range(m):
        code = ctx.choose("code%d" % j, codes)
        index = ctx.integer("i%d" % j, 0, n)
        raw = bytes([ctx.choose("sig%d" % j, list(range(j + 1)))] * 64)
        kw = dict(ondex=ctx.integer("o%d" % j, 0, 3)) if CODES[code] else {}
        sigs.append(Siger(raw=raw, code=code, index=index, **kw))
    good = {}
    for i in range(n):
        for j in range(m):
            good[i, j] = ctx.boolean("good%d.%d" % (i, j))
    return verfers, sigs, good


def oracle(message, verfers, good):
    def f(vk, msg, sig):
        if len(msg) != len(message) or msg != message:
            return False
        for i, v in enumerate(verfers):
            if v.raw == vk:
                return good[i, sig[0]]
        return False
    return f


def signers(n, sigs, good):
    """positions with at least one good signature"""
    out = []
    for i in range(n):
        here = False
        for s in sigs:
            here = here | ((s.index == i) & good[i, s.raw[0]])
        out.append(here)
    return out


def verifying(ctx, n, m, codes):
    verfers, sigs, good = world(ctx, n, m, codes)
    msg = b"the event"
    want = signers(n, sigs, good)
    ideal.ORACLE = oracle(msg, verfers, good)
    vsigs, vidx = verifySigs(msg, list(sigs), verfers)
    for i in range(n):
        cnt = 0
        for x in vidx:
            cnt = cnt + (x == i)
        ctx.check((cnt > 0) == want[i], "position counted without a good signature, or a good one not counted")
        ctx.check(cnt <= 1, "a key is counted more than once")
    for x in vidx:
        ctx.check((x >= 0) & (x < n), "position outside the key list")
    for s in vsigs:
        ok = False
        for i in range(n):
            ok = ok | ((s.index == i) & good[i, s.raw[0]])
        ctx.check(ok, "unverified signature returned as verified")
    ctx.reach("some" if len(vidx) else "none")


def validating(ctx, n, m, thold):
    keys = [Verfer(raw=bytes([i + 1] * 32), code=MtrDex.Ed25519) for i in range(n)]
    serder = incept(keys=[k.qb64 for k in keys], isith=thold, code=MtrDex.Blake3_256)
    verfers, sigs, good = world(ctx, n, m, ["A", "B"])
    th = Tholder(sith=thold)
    want = signers(n, sigs, good)
    ideal.ORACLE = oracle(serder.raw, verfers, good)
    if isinstance(thold, list):
        w = [60 * int(x.split("/")[0]) // int((x + "/1").split("/")[1]) for x in thold]
        tot = 0
        for i in range(n):
            tot = tot + w[i] * want[i]
        met = tot >= 60
    else:
        tot = 0
        for i in range(n):
            tot = tot + want[i]
        met = tot >= int(thold, 16)
    none = True
    for x in want:
        none = none & (x == False)
    try:
        vs, valid = validateSigs(serder, list(sigs), verfers, th)
    except ValidationError:
        ctx.check(none, "message refused though signatures verify")
        ctx.reach("refused")
        return
    ctx.check(not none, "message without any verified signature not refused")
    ctx.check(bool(valid) == bool(met), "threshold of verified signatures decided wrongly")
    ctx.reach("valid" if valid else "partial")


def short(ctx):
    """Fewer keys than the threshold could ever need are refused."""
    n = ctx.choose("n", [1, 2, 3])
    t = ctx.integer("t", 0, 5)
    keys = [Verfer(raw=bytes([i + 1] * 32), code=MtrDex.Ed25519) for i in range(n)]
    serder = incept(keys=[k.qb64 for k in keys], isith="1", code=MtrDex.Blake3_256)
    sigs = [Siger(raw=bytes(64), index=i) for i in range(n)]
    ideal.ORACLE = lambda vk, msg, sig: True
    try:
        vs, valid = validateSigs(serder, sigs, keys, Tholder(thold=t))
    except ValidationError:
        ctx.check(t > n, "refused")
        ctx.reach("refused")
        return
    ctx.check(t <= n, "threshold larger than the key list accepted")
    ctx.check(bool(valid) == bool((t > 0) & (t <= n)), "threshold")
    ctx.reach("ok")


def cases(tier):
    T = tier == "thorough"
    out = []
    for n, m, codes in [(1, 1, list(CODES)), (2, 2, ["A", "B"]), (2, 2, ["2A", "B"]), (3, 2, ["A"]), (3, 3, ["A"]), (2, 0, ["A"])] + (
            [(3, 3, ["A", "B"]), (3, 4, ["A"]), (2, 3, list(CODES))] if T else []):
        out.append(dict(name="verify-%d-%d-%s" % (n, m, "".join(codes)), fn=verifying, params=dict(n=n, m=m, codes=codes),
                        expect=["none"] + (["some"] if m else []), weight=n * m * len(codes)))
    for n, m, th in [(1, 1, "1"), (2, 2, "2"), (2, 2, "1"), (3, 2, "2"), (3, 2, ["1/2", "1/2", "1/2"]), (2, 2, ["1/2", "1/2"])] + (
            [(3, 3, "2"), (3, 3, ["1/2", "1/3", "1/2"]), (3, 3, "3")] if T else []):
        out.append(dict(name="valid-%d-%d-%s" % (n, m, "".join(th).replace("/", "")), fn=validating, params=dict(n=n, m=m, thold=th),
                        expect=["valid", "refused"] + (["partial"] if n > 1 and th != "1" else []), weight=n * m * 2))
    out.append(dict(name="short", fn=short, expect=["ok", "refused"]))
    return out


BOUNDS = "up to 3 keys, 3 signatures (thorough 4), any position 0..n, single and dual index codes, repeated signature bytes, every combination of signature validity; thresholds 1..3 and three weighted ones"
OUTSIDE = "key lists that name the same key twice; more keys"
ASSUMPTIONS = ["a signature is good or not per (key, message, signature), independently: signature scheme idealised"]
