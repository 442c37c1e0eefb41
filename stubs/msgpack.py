"""Stand-in codec: MessagePack subset (maps, arrays, str, bin, ints, bool, nil, float)."""
import struct


class UnpackException(Exception): pass
class ExtraData(UnpackException, ValueError): pass


def dumps(o, **k):
    if o is None: return b"\xc0"
    if o is True: return b"\xc3"
    if o is False: return b"\xc2"
    if isinstance(o, int):
        if 0 <= o < 128: return bytes([o])
        if -32 <= o < 0: return bytes([o & 255])
        if o >= 0:
            for c, w in ((0xcc, 1), (0xcd, 2), (0xce, 4), (0xcf, 8)):
                if o < 1 << (8 * w): return bytes([c]) + o.to_bytes(w, "big")
        else:
            for c, w in ((0xd0, 1), (0xd1, 2), (0xd2, 4), (0xd3, 8)):
                if o >= -(1 << (8 * w - 1)): return bytes([c]) + o.to_bytes(w, "big", signed=True)
        raise OverflowError
    if isinstance(o, float): return b"\xcb" + struct.pack(">d", o)
    if isinstance(o, str):
        b = o.encode(); n = len(b)
        if n < 32: return bytes([0xa0 | n]) + b
        if n < 256: return bytes([0xd9, n]) + b
        if n < 65536: return b"\xda" + n.to_bytes(2, "big") + b
        return b"\xdb" + n.to_bytes(4, "big") + b
    if isinstance(o, (bytes, bytearray)):
        n = len(o)
        if n < 256: return bytes([0xc4, n]) + bytes(o)
        if n < 65536: return b"\xc5" + n.to_bytes(2, "big") + bytes(o)
        return b"\xc6" + n.to_bytes(4, "big") + bytes(o)
    if isinstance(o, (list, tuple)):
        n = len(o)
        h = bytes([0x90 | n]) if n < 16 else b"\xdc" + n.to_bytes(2, "big")
        return h + b"".join(map(dumps, o))
    if isinstance(o, dict):
        n = len(o)
        h = bytes([0x80 | n]) if n < 16 else b"\xde" + n.to_bytes(2, "big")
        return h + b"".join(dumps(k) + dumps(v) for k, v in o.items())
    raise TypeError(type(o))


packb = dumps


def loads(b, **k):
    b = bytes(b)
    v, i = _ld(b, 0)
    if i != len(b): raise ExtraData("extra data")
    return v


unpackb = loads


def _n(b, i, w):
    if i + w > len(b): raise ValueError("Unpack failed: incomplete input")
    return b[i:i + w]


def _ld(b, i):
    c = _n(b, i, 1)[0]; i += 1
    if c < 0x80: return c, i
    if c >= 0xe0: return c - 256, i
    if c < 0x90: return _m(b, i, c & 15)
    if c < 0xa0: return _a(b, i, c & 15)
    if c < 0xc0: return _n(b, i, c & 31).decode(), i + (c & 31)
    if c == 0xc0: return None, i
    if c == 0xc2: return False, i
    if c == 0xc3: return True, i
    if c in (0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb):
        w = {0xc4: 1, 0xc5: 2, 0xc6: 4, 0xd9: 1, 0xda: 2, 0xdb: 4}[c]
        n = int.from_bytes(_n(b, i, w), "big"); i += w
        x = _n(b, i, n)
        return (x if c < 0xd0 else x.decode()), i + n
    if c == 0xcb: return struct.unpack(">d", _n(b, i, 8))[0], i + 8
    if c in (0xcc, 0xcd, 0xce, 0xcf):
        w = 1 << (c - 0xcc); return int.from_bytes(_n(b, i, w), "big"), i + w
    if c in (0xd0, 0xd1, 0xd2, 0xd3):
        w = 1 << (c - 0xd0); return int.from_bytes(_n(b, i, w), "big", signed=True), i + w
    if c == 0xdc: return _a(b, i + 2, int.from_bytes(_n(b, i, 2), "big"))
    if c == 0xde: return _m(b, i + 2, int.from_bytes(_n(b, i, 2), "big"))
    raise ValueError("unsupported")


def _a(b, i, n):
    out = []
    for _ in range(n):
        v, i = _ld(b, i); out.append(v)
    return out, i


def _m(b, i, n):
    d = {}
    for _ in range(n):
        k, i = _ld(b, i); v, i = _ld(b, i); d[k] = v
    return d, i
