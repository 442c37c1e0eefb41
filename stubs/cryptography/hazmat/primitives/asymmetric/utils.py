def decode_dss_signature(sig): return (int.from_bytes(sig[:32], "big"), int.from_bytes(sig[32:], "big"))
def encode_dss_signature(r, s): return r.to_bytes(32, "big") + s.to_bytes(32, "big")
