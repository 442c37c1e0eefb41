"""Stand-in for libsodium: idealised, see ideal.py."""
import itertools
import ideal

crypto_sign_SEEDBYTES = 32
crypto_sign_PUBLICKEYBYTES = 32
crypto_sign_SECRETKEYBYTES = 64
crypto_sign_BYTES = 64
crypto_pwhash_SALTBYTES = 16
crypto_pwhash_ALG_ARGON2ID13 = 2
crypto_pwhash_OPSLIMIT_INTERACTIVE = 2
crypto_pwhash_MEMLIMIT_INTERACTIVE = 67108864
crypto_pwhash_OPSLIMIT_MODERATE = 3
crypto_pwhash_MEMLIMIT_MODERATE = 268435456
crypto_pwhash_OPSLIMIT_SENSITIVE = 4
crypto_pwhash_MEMLIMIT_SENSITIVE = 1073741824
crypto_box_SEALBYTES = 48
_n = itertools.count()
RESET = 0


def reset():
    global _n
    _n = itertools.count()


def randombytes(n):
    return ideal.digest("rand", b"%d" % next(_n), max(n, 1))[:n]


def crypto_sign_seed_keypair(seed):
    return ideal.keypair(seed)


def crypto_sign_detached(msg, sk):
    return ideal.sign(msg, sk)


def crypto_sign_verify_detached(sig, msg, vk):
    if not ideal.verify(sig, msg, vk):
        raise ValueError("bad signature")


def crypto_pwhash(outlen, passwd, salt, opslimit, memlimit, alg):
    if isinstance(passwd, str):
        passwd = passwd.encode()
    return ideal.digest("argon", b"%d|%s|%s|%d|%d|%d" % (outlen, bytes(passwd), bytes(salt), opslimit, memlimit, alg), outlen)


def crypto_sign_pk_to_box_pk(pk):
    return ideal.digest("boxpk", bytes(pk), 32)


def crypto_sign_sk_to_box_sk(sk):
    # secret box key remembers which public box key it belongs to
    return ideal.digest("boxpk", bytes(sk[-32:]), 32)


def crypto_scalarmult_curve25519_base(sk):
    return bytes(sk)


def crypto_scalarmult_curve25519(sk, b=None):
    return bytes(sk)


def crypto_box_seal(msg, pk):
    # 16 byte tag + 32 byte pk + msg xor stream: readable only with the matching key
    n = len(msg)
    st = ideal.digest("seal", bytes(pk), n) if n else b""
    body = bytes(a ^ b for a, b in zip(bytes(msg), st))
    return ideal.digest("sealtag", bytes(pk) + bytes(msg), 16) + bytes(pk) + body


def crypto_box_seal_open(c, pk, sk):
    c = bytes(c)
    if len(c) < 48 or c[16:48] != bytes(pk) or bytes(sk) != bytes(pk):
        raise ValueError("decryption failed")
    body = c[48:]
    st = ideal.digest("seal", bytes(pk), len(body)) if body else b""
    msg = bytes(a ^ b for a, b in zip(body, st))
    if ideal.digest("sealtag", bytes(pk) + msg, 16) != c[:16]:
        raise ValueError("decryption failed")
    return msg
