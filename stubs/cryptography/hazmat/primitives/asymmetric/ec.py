"""Stand-in ECDSA: idealised, see ideal.py."""
import ideal
from cryptography import exceptions


class SECP256R1: pass
class SECP256K1: pass
class ECDSA:
    def __init__(self, h): pass


class EllipticCurvePublicKey:
    def __init__(self, vk): self.vk = vk
    @classmethod
    def from_encoded_point(cls, curve, data): return cls(data)
    def verify(self, sig, msg, alg):
        if not ideal.verify(sig, msg, self.vk):
            raise exceptions.InvalidSignature()
    def public_bytes(self, enc, fmt): return self.vk


class _Priv:
    def __init__(self, d): self.d = d
    def public_key(self): return EllipticCurvePublicKey(b"\x02" + ideal.digest("ecpk", self.d.to_bytes(32, "big"), 32))
    def sign(self, msg, alg):
        return ideal.digest("sig", self.public_key().vk + b"|" + bytes(msg), 64)
    def private_numbers(self): return type("N", (), {"private_value": self.d})


def derive_private_key(d, curve, *a): return _Priv(d)
def generate_private_key(curve, *a): return _Priv(7)
