"""Stand-in codec: canonical CBOR subset (maps, arrays, text, bytes, ints, bool, null, float)."""
import struct


class CBORDecodeError(Exception): pass


def _head(mt, n):
    if n < 24: return bytes([mt << 5 | n])
    if n < 256: return bytes([mt << 5 | 24, n])
    if n < 65536: return bytes([mt << 5 | 25]) + n.to_bytes(2, "big")
    if n < 1 << 32: return bytes([mt << 5 | 26]) + n.to_bytes(4, "big")
    return bytes([mt << 5 | 27]) + n.to_bytes(8, "big")


def dumps(o, **k):
    if o is None: return b"\xf6"
    if o is True: return b"\xf5"
    if o is False: return b"\xf4"
    if isinstance(o, int): return _head(0, o) if o >= 0 else _head(1, -1 - o)
    if isinstance(o, float): return b"\xfb" + struct.pack(">d", o)
    if isinstance(o, (bytes, bytearray)): return _head(2, len(o)) + bytes(o)
    if isinstance(o, str):
        b = o.encode(); return _head(3, len(b)) + b
    if isinstance(o, (list, tuple)): return _head(4, len(o)) + b"".join(map(dumps, o))
    if isinstance(o, dict): return _head(5, len(o)) + b"".join(dumps(k) + dumps(v) for k, v in o.items())
    raise TypeError(type(o))


def loads(b, **k):
    v, i = _ld(bytes(b), 0)
    return v


def _ld(b, i):
    if i >= len(b): raise CBORDecodeError("premature end")
    mt, n = b[i] >> 5, b[i] & 31
    i += 1
    if mt == 7:
        if n == 20: return False, i
        if n == 21: return True, i
        if n == 22: return None, i
        if n == 27: return struct.unpack(">d", b[i:i + 8])[0], i + 8
        raise CBORDecodeError("simple")
    if n >= 24:
        w = {24: 1, 25: 2, 26: 4, 27: 8}.get(n)
        if not w or i + w > len(b): raise CBORDecodeError("len")
        n = int.from_bytes(b[i:i + w], "big"); i += w
    if mt == 0: return n, i
    if mt == 1: return -1 - n, i
    if mt in (2, 3):
        if i + n > len(b): raise CBORDecodeError("premature end")
        x = b[i:i + n]
        return (x if mt == 2 else x.decode()), i + n
    if mt == 4:
        out = []
        for _ in range(n):
            v, i = _ld(b, i); out.append(v)
        return out, i
    if mt == 5:
        d = {}
        for _ in range(n):
            k, i = _ld(b, i); v, i = _ld(b, i); d[k] = v
        return d, i
    raise CBORDecodeError("tag")
