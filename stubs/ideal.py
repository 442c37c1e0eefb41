"""Idealised cryptography shared by the stand-ins.

digest: a deterministic function without collisions.  signatures: `sign` returns a
token naming key and message; `verify` accepts exactly such tokens, or whatever a
harness' oracle (ORACLE) decides, e.g. a symbolic boolean per (key, message, sig)."""
import hashlib

ORACLE = None     # callable(vk, msg, sig) -> bool/SymBool


def current():
    try:
        from vt import engine
    except ImportError:      # used by a demonstration, outside the framework
        return None
    return engine.CURRENT


def _sym(x):
    return not isinstance(x, (bytes, bytearray, memoryview))


def digest(algo, data, n=32):
    if _sym(data):
        from vt import engine
        from vt import sym as S
        c = engine.CURRENT
        tab = c.memo.setdefault(("digest", algo, n), [])
        for d, out in tab:
            if type(d) is type(data) and len(d) == len(data) and d is data:
                return out
        out = c.fresh_bytes(algo, n)
        for d, o in tab:
            # injective and functional: equal outputs exactly for equal inputs
            e = (data == d)
            c.add(S.bexpr(out == o) == S.bexpr(e))
        tab.append((data, out))
        return out
    if isinstance(data, str):
        data = data.encode()
    h = hashlib.blake2b(bytes(data), digest_size=min(n, 64), person=algo.encode()[:16]).digest()
    out = h
    while len(out) < n:
        out += hashlib.blake2b(out, digest_size=64, person=algo.encode()[:16]).digest()
    out = out[:n]
    c = current()
    if c is not None:
        from vt import sym as S
        tab = c.memo.setdefault(("digest", algo, n), [])
        for d, o in tab:
            if not _sym(d) and bytes(d) == bytes(data):
                return o
            if _sym(d):
                c.add(S.bexpr(o == out) == S.bexpr(d == bytes(data)))
        tab.append((bytes(data), out))
    return out


def keypair(seed):
    vk = digest("vk", seed, 32)
    return vk, bytes(seed)[:32] + vk if not _sym(seed) else seed + vk


def sign(msg, sk):
    vk = sk[-32:]
    return digest("sig", bytes(vk) + b"|" + bytes(msg), 64) if not _sym(msg) else digest("sig", vk + b"|" + msg, 64)


def verify(sig, msg, vk):
    if ORACLE is not None:
        r = ORACLE(vk, msg, sig)
        if r is not None:
            return r
    return sig == digest("sig", vk + b"|" + msg if _sym(vk) or _sym(msg) else bytes(vk) + b"|" + bytes(msg), 64)
