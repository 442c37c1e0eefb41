"""Runtime that instrumented modules call: makes C-implemented builtins accept
symbolic arguments by exact models; anything unmodelled is sampled and the run is
marked incomplete."""
import base64
import functools
import hashlib
import binascii
import builtins
import math
import operator
import re
import types
import string as _string
import z3
from . import engine as _eng
from . import sym as S
from .sym import (Sym, SymBool, SymInt, SymSeq, SymStr, SymBytes, SymByteArray,
                  SymFrac, is_sym, mkbool, conj, disj, neg)
from .engine import Unsupported
import collections
import fractions

BUILTIN = (types.BuiltinFunctionType, types.MethodDescriptorType,
           types.ClassMethodDescriptorType, types.WrapperDescriptorType,
           types.MethodWrapperType, type(re.compile("").match))
PURETYPES = (list, tuple, set, frozenset, dict)


def has_sym(args, kwa):
    for a in args:
        if isinstance(a, Sym):
            return True
    for a in kwa.values():
        if isinstance(a, Sym):
            return True
    return False


def deep_sym(x, d=3):
    if isinstance(x, Sym):
        return True
    if d and isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return any(deep_sym(y, d - 1) for y in x)
    if d and isinstance(x, dict):
        return any(deep_sym(y, d - 1) for y in x.values()) or any(isinstance(k, Sym) for k in x)
    return False


def sampled(x):
    """Concrete stand-in for an unmodelled use (marks run incomplete)."""
    c = _eng.CURRENT
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        v = c.sample(x.e)
        return v - (1 << x.e.size()) if v >= 1 << (x.e.size() - 1) else v
    if isinstance(x, SymByteArray):
        return bytearray(SymSeq.sampled(x))
    if isinstance(x, SymSeq):
        return x.sampled()
    if isinstance(x, SymFrac):
        return fractions.Fraction(sampled(x.n), sampled(x.d))
    if isinstance(x, (list, set, frozenset, collections.deque)):
        return type(x)(sampled(y) for y in x)
    if type(x) is tuple:
        return tuple(sampled(y) for y in x)
    if type(x) is dict:
        return {sampled(k): sampled(v) for k, v in x.items()}
    return x


# -------------------------------------------------------------------- models
def m_isinstance(x, t):
    if not isinstance(x, Sym):
        return builtins.isinstance(x, t)
    ts = []

    def flat(t):
        if isinstance(t, tuple):
            for u in t:
                flat(u)
        elif isinstance(t, types.UnionType):
            for u in t.__args__:
                flat(u)
        else:
            ts.append(t)
    flat(t)
    import collections.abc as cabc
    import numbers
    for t in ts:
        if type(t).__name__ == "ABCMeta" and t.__module__.startswith("keri"):
            # ABC metaclass tests such as keri's NonStringIterable
            if builtins.isinstance(sample_of(x), t):
                return True
            continue
        if isinstance(x, t):
            return True
        if isinstance(x, SymBool) and t in (bool, int, numbers.Number, numbers.Integral, cabc.Hashable):
            return True
        if isinstance(x, SymInt) and t in (int, numbers.Number, numbers.Integral, numbers.Real, numbers.Rational, cabc.Hashable):
            return True
        if isinstance(x, SymStr) and t in (str, cabc.Sequence, cabc.Iterable, cabc.Collection, cabc.Hashable, cabc.Sized, cabc.Container, cabc.Reversible):
            return True
        if isinstance(x, SymByteArray):
            if t in (bytearray, cabc.Sequence, cabc.MutableSequence, cabc.Iterable, cabc.Collection):
                return True
        elif isinstance(x, SymBytes) and t in (bytes, cabc.Sequence, cabc.Iterable, cabc.Collection, cabc.Hashable, cabc.Sized, cabc.Container, cabc.Reversible):
            return True
        if isinstance(x, SymFrac) and t in (fractions.Fraction, numbers.Number, numbers.Real, numbers.Rational):
            return True
        if t is object:
            return True
    return False


def sample_of(x):
    """A representative of the modelled type (value irrelevant)."""
    if isinstance(x, SymByteArray):
        return bytearray()
    if isinstance(x, SymBytes):
        return b""
    if isinstance(x, SymStr):
        return ""
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymInt):
        return 0
    return fractions.Fraction(1, 2)


def m_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return type(sample_of(a[0]))
    return type(*a)


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get("base", None)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, SymSeq):
        return x.toint(10 if base is None else base.__index__())
    if isinstance(x, SymFrac):
        return x.__trunc__()
    return int(*a, **k)


def m_str(*a, **k):
    x = a[0]
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return x.text(10)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymBytes):
        if len(a) > 1 or k:
            return x.decode(*a[1:], **k)
        return opaque(x)
    return opaque(x)


def opaque(x):
    return "<sym>"


def m_bytes(*a, **k):
    if not a:
        return b""
    x = a[0]
    if isinstance(x, SymBytes):
        return SymBytes(list(x.es)).native()
    if isinstance(x, SymStr):
        return x.encode(*a[1:], **k)
    if isinstance(x, SymInt):
        return bytes(x.__index__())
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__"):
        es = []
        for e in x:
            if isinstance(e, SymInt):
                if bool(disj(e < 0, e > 255)):
                    raise ValueError("bytes must be in range(0, 256)")
                es.append(S.simp(z3.Extract(7, 0, S.sext(e.e, 9))))
            else:
                if not 0 <= e <= 255:
                    raise ValueError("bytes must be in range(0, 256)")
                es.append(int(e))
        return SymBytes(es).native()
    return bytes(*a, **k)


def m_bytearray(*a, **k):
    r = m_bytes(*a, **k)
    return SymByteArray(list(SymBytes.of(r)))


def m_len(x):
    return len(x)


def m_hex(x):
    if isinstance(x, SymInt):
        if bool(x < 0):
            return "-0x" + (-x).text(16)
        return "0x" + x.text(16)
    return hex(x)


def m_ord(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return S.mkint(z3.ZeroExt(1, x.es[0]), 0, 0x1fffff)
    if isinstance(x, SymBytes):
        return x[0]
    return ord(x)


def m_chr(x):
    if isinstance(x, SymInt):
        if bool(disj(x < 0, x > 0x10ffff)):
            raise ValueError("chr() arg not in range")
        return SymStr([z3.Extract(S.CW - 1, 0, S.sext(x.e, S.CW + 1))]).native()
    return chr(x)


def m_abs(x):
    return abs(x)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_minmax(isless):
    def f(*a, key=None, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise ValueError("empty sequence")
        kf = key or (lambda x: x)
        best = items[0]
        for x in items[1:]:
            c = (kf(x) < kf(best)) if isless else (kf(x) > kf(best))
            if isinstance(c, SymBool) and key is None and isinstance(S.lift(x), SymInt) and isinstance(S.lift(best), SymInt):
                p, q = S.lift(x), S.lift(best)
                lo = min(p.lo, q.lo) if isless else max(p.lo, q.lo)
                hi = min(p.hi, q.hi) if isless else max(p.hi, q.hi)
                w = max(p.e.size(), q.e.size())
                best = S.mkint(z3.If(c.e, S.sext(p.e, w), S.sext(q.e, w)), lo, hi)
            elif bool(c):
                best = x
        return best
    return f


def m_sorted(it, *, key=None, reverse=False):
    items = list(it)
    kf = key or (lambda x: x)
    dec = [(kf(x), x) for x in items]
    out = []
    for k, x in dec:     # stable insertion sort, comparisons split the path
        i = len(out)
        while i > 0 and bool((out[i - 1][0] < k) if reverse else (k < out[i - 1][0])):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def m_any(it):
    for x in it:
        if bool(x):
            return True
    return False


def m_all(it):
    for x in it:
        if not bool(x):
            return False
    return True


def m_from_bytes(x, byteorder="big", *, signed=False):
    es = SymBytes.of(x)
    if es is None:
        es = SymBytes.of(m_bytes(x))
    es = [S.el(e, 8) for e in es]
    if byteorder == "little":
        es = es[::-1]
    if not es:
        return 0
    v = z3.Concat(*es) if len(es) > 1 else es[0]
    n = 8 * len(es)
    if signed:
        return S.mkint(v, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return S.mkint(z3.ZeroExt(1, v), 0, (1 << n) - 1)


B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
B64S = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b64char(d, url=True):
    """6 bit term -> 8 bit character"""
    d = S.simp(d)
    if z3.is_bv_value(d):
        return z3.BitVecVal((B64 if url else B64S)[d.as_long()], 8)
    c = _eng.CURRENT
    inv = c.memo.setdefault("b64inv", {})
    if url:
        h = c.memo.get("b64fwd", {}).get(d.get_id())
        if h is not None and h[0].eq(d):
            return h[1]            # d came from this very character
    x = z3.ZeroExt(2, d)
    p, q = (45, 95) if url else (43, 47)
    t = S.simp(z3.If(z3.ULT(x, 26), x + 65, z3.If(z3.ULT(x, 52), x + 71,
               z3.If(z3.ULT(x, 62), x - 4, z3.If(x == 62, z3.BitVecVal(p, 8), z3.BitVecVal(q, 8))))))
    inv[t.get_id()] = (t, d)       # the map is a bijection: remember the preimage
    return t


def m_b64encode(s, altchars=None, url=True):
    es = SymBytes.of(s)
    out = []
    tab = B64 if url else B64S
    for i in range(0, len(es), 3):
        ch = es[i:i + 3]
        pad = 3 - len(ch)
        if not pad and type(ch[0]) is int and type(ch[1]) is int and type(ch[2]) is int:
            v = ch[0] << 16 | ch[1] << 8 | ch[2]
            out += (tab[v >> 18], tab[v >> 12 & 63], tab[v >> 6 & 63], tab[v & 63])
            continue
        ch = [S.el(e, 8) for e in ch]
        ch = ch + [z3.BitVecVal(0, 8)] * pad
        v = z3.Concat(*ch)
        q = [b64char(z3.Extract(23 - 6 * k, 18 - 6 * k, v), url) for k in range(4)]
        if pad:
            q[4 - pad:] = [61] * pad
        out += q
    return SymBytes(out).native()


VAL64 = {c: k for t in (B64S, B64) for k, c in enumerate(t)}


def b64val(e):
    """8-bit char term of the *standard plus url* alphabet -> (valid, 6-bit value)"""
    if type(e) is int and e in VAL64:
        return True, VAL64[e]
    e = S.el(e, 8)
    if z3.is_bv_value(e):
        ch = e.as_long()
        k = B64.find(ch) if B64.find(ch) >= 0 else B64S.find(ch)
        return z3.BoolVal(k >= 0), z3.BitVecVal(max(k, 0), 6)
    h = _eng.CURRENT.memo.get("b64inv", {}).get(e.get_id())
    if h is not None and h[0].eq(e):
        return z3.BoolVal(True), h[1]
    v = z3.If(z3.ULE(e, 57), z3.If(z3.UGE(e, 48), e + 4, z3.If(z3.Or(e == 43, e == 45), z3.BitVecVal(62, 8), z3.BitVecVal(63, 8))),
              z3.If(z3.ULE(e, 90), e - 65, z3.If(e == 95, z3.BitVecVal(63, 8), e - 71)))
    ok = z3.Or(z3.And(z3.UGE(e, 48), z3.ULE(e, 57)), z3.And(z3.UGE(e, 65), z3.ULE(e, 90)),
               z3.And(z3.UGE(e, 97), z3.ULE(e, 122)), e == 43, e == 45, e == 47, e == 95)
    return S.simp(ok), S.simp(z3.Extract(5, 0, v))


def m_urlsafe_b64decode(s):
    """base64.urlsafe_b64decode: translates -_ to +/ then non-strict a2b_base64:
    characters outside the alphabet are discarded; padding must be right."""
    if isinstance(s, SymStr):
        if not bool(s.isascii()):
            raise ValueError("string argument should contain only ASCII characters")
        s = s.encode()
    es = SymBytes.of(s)
    # split once on the all-valid-with-trailing-pad fast path
    n = len(es)
    k = n
    while k > 0 and n - k < 2 and isinstance(es[k - 1], int) and es[k - 1] == 61:
        k -= 1
    oks, vals = [], []
    for e in es[:k]:
        ok, v = b64val(e)
        if ok is not True:
            oks.append(ok)
        vals.append(v)
    allok = mkbool(z3.And(*oks)) if oks else True
    if bool(allok) and n % 4 == 0:
        return b64pack(vals)
    # general path: classify each char
    kept, pads = [], 0
    quad = 0
    for e in es:
        if bool(S.eqel(e, 61)):
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    return b64pack(kept)     # non strict: stops at complete quad
            continue
        ok, v = b64val(e)
        if ok is not True and not bool(mkbool(ok)):
            continue
        pads = 0
        kept.append(v)
        quad = (quad + 1) % 4
    if quad != 0:
        raise binascii.Error("Incorrect padding" if quad != 1 else "Invalid base64-encoded string")
    return b64pack(kept)


def b64pack(vals):
    out = []
    for i in range(0, len(vals), 4):
        ch = vals[i:i + 4]
        if len(ch) == 4 and all(type(c) is int for c in ch):
            v = ch[0] << 18 | ch[1] << 12 | ch[2] << 6 | ch[3]
            out += (v >> 16, v >> 8 & 255, v & 255)
            continue
        ch = [v if isinstance(v, z3.BitVecRef) else z3.BitVecVal(v, 6) for v in ch]
        if len(ch) == 4:
            v = z3.Concat(*ch)
            out += [S.simp(z3.Extract(23 - 8 * k, 16 - 8 * k, v)) for k in range(3)]
        elif len(ch) == 3:
            v = z3.Concat(*ch)
            out += [S.simp(z3.Extract(17, 10, v)), S.simp(z3.Extract(9, 2, v))]
        elif len(ch) == 2:
            v = z3.Concat(*ch)
            out += [S.simp(z3.Extract(11, 4, v))]
        elif len(ch) == 1:
            raise binascii.Error("Invalid base64-encoded string")
    return SymBytes(out).native()


def m_hexlify(x, *a):
    return x.hex().encode()


def m_fromhex(s):
    if isinstance(s, SymStr):
        out, es = [], list(s.es)
        i = 0
        while i < len(es):
            if bool(s._isws(es[i])):
                i += 1
                continue
            if i + 1 >= len(es) or not bool(conj(S.isdig(es[i], 16, s.W), S.isdig(es[i + 1], 16, s.W))):
                raise ValueError("non-hexadecimal number found in fromhex() arg")
            a, b = (z3.Extract(3, 0, S.digval(e, s.W)) for e in es[i:i + 2])
            out.append(S.simp(z3.Concat(a, b)))
            i += 2
        return SymBytes(out).native()
    return bytes.fromhex(s)


def m_range(*a):
    return range(*[x.__index__() for x in a])


def m_divmod(a, b):
    return divmod(S.lift(a) if isinstance(a, (int, Sym)) else a, b)


def m_pow(a, b, *m):
    if m:
        return pow(sampled(a), sampled(b), *[sampled(x) for x in m])
    return a ** b


def m_round(x, n=None):
    return x.__round__(n) if isinstance(x, Sym) else round(x, n)


def m_ceil(x):
    return x.__ceil__() if isinstance(x, (SymInt, SymFrac)) else math.ceil(x)


def m_floor(x):
    return x.__floor__() if isinstance(x, (SymInt, SymFrac)) else math.floor(x)


def m_float(x):
    return SymFrac.of(x) if isinstance(x, (SymInt, SymBool, SymFrac)) else float(x)


def m_bool(x=False):
    return bool(x)


def m_getattr(o, n, *d):
    if isinstance(n, SymStr):
        n = n.conc()
    return getattr(o, n, *d)


def m_fraction(*a, **k):
    if len(a) == 1 and isinstance(a[0], (SymInt, SymFrac)):
        return SymFrac.of(a[0])
    if len(a) == 2:
        return SymFrac(a[0], a[1])
    if len(a) == 1 and isinstance(a[0], SymStr):
        s = a[0]
        if "/" in s:
            p, _, q = s.partition("/")
            return SymFrac(m_int(p), m_int(q))
        return SymFrac.of(m_int(s))
    raise Unsupported("Fraction")


def m_issorted(*a):
    raise Unsupported


def m_repr(x):
    return "<sym>"


def m_format(v, spec=""):
    return fmt1(v, -1, spec)


def m_set(it=()):
    r = set()
    for x in it:
        r.add(x)
    return r


def m_memoryview(x):
    return x if isinstance(x, SymBytes) else memoryview(x)


def m_deepcopy(x, memo=None):
    import copy
    return copy.deepcopy(x)


MODELS = {}


def model(f, g):
    MODELS[f] = g


for _f, _g in [(isinstance, m_isinstance), (type, m_type), (int, m_int), (str, m_str),
               (bytes, m_bytes), (bytearray, m_bytearray), (len, m_len), (hex, m_hex),
               (ord, m_ord), (chr, m_chr), (abs, m_abs), (sum, m_sum), (min, m_minmax(True)),
               (max, m_minmax(False)), (sorted, m_sorted), (any, m_any), (all, m_all),
               (range, m_range), (divmod, m_divmod), (pow, m_pow), (round, m_round),
               (math.ceil, m_ceil), (math.floor, m_floor), (float, m_float), (bool, m_bool),
               (getattr, m_getattr), (repr, m_repr), (format, m_format),
               (memoryview, m_memoryview), (fractions.Fraction, m_fraction),
               (binascii.hexlify, m_hexlify), (base64.b64encode, lambda s, altchars=None: m_b64encode(s, url=altchars is not None)),
               (base64.urlsafe_b64encode, m_b64encode), (base64.urlsafe_b64decode, m_urlsafe_b64decode)]:
    MODELS[_f] = _g
# builtins that pass elements through untouched
TRANSPARENT = {list, tuple, zip, enumerate, iter, next, reversed, map, filter, id, print,
               callable, hasattr, setattr, dict, super, object, collections.deque,
               collections.OrderedDict, vars, property, staticmethod, classmethod, slice, set, frozenset,
               dict.fromkeys, collections.defaultdict}
BIMODELS = {("from_bytes", int): m_from_bytes, ("fromhex", bytes): m_fromhex,
            ("fromhex", bytearray): lambda s: m_bytearray(m_fromhex(s))}
SELFCONT = (list, tuple, dict, set, frozenset, collections.deque, collections.OrderedDict)


class Hash:
    """Stand-in for the other digest algorithms: ideal like that of blake3."""
    def __init__(self, name, size, data=b"", digest_size=None):
        self.name, self.size, self.data = name, digest_size or size, data

    def update(self, data):
        self.data = self.data + data

    def digest(self):
        import ideal
        return ideal.digest(self.name, self.data, self.size)


HASHES = {getattr(hashlib, _n): functools.partial(Hash, _n, _s) for _n, _s in
          dict(blake2b=64, blake2s=32, sha3_256=32, sha256=32, sha3_512=64, sha512=64).items()}


def call(f, /, *args, **kwa):
    tf = type(f)
    if tf is types.FunctionType or tf is types.MethodType:
        if f in PYMODELS and _eng.CURRENT is not None:
            g = PYMODELS[f]
            if has_sym(args, kwa) or hasattr(g, "deep"):
                return g(*args, **kwa)
        return f(*args, **kwa)
    if _eng.CURRENT is None:
        return f(*args, **kwa)
    if tf is type or builtins.isinstance(f, type):
        if f in HASHES:
            return HASHES[f](*args, **kwa)
        g = MODELS.get(f)
        if g is not None:
            if f is bytearray:
                return m_bytearray(*args, **kwa)
            if has_sym(args, kwa) or (f in (bytes, bytearray) and args and deep_sym(args[0], 1)):
                return g(*args, **kwa)
        return f(*args, **kwa)
    if tf in BUILTIN:
        try:
            if f in HASHES:
                return HASHES[f](*args, **kwa)
            g = MODELS.get(f)
        except TypeError:
            g = None
        slf = getattr(f, "__self__", None)
        symargs = has_sym(args, kwa)
        if g is not None:
            if symargs or (args and deep_sym(args[0], 1)) or \
                    (f in (min, max, any, all, sum, sorted) and not isinstance(args[0], (list, tuple, set, dict, str, bytes))):
                return g(*args, **kwa)
            return f(*args, **kwa)
        name = getattr(f, "__name__", "")
        if slf is not None and not isinstance(slf, types.ModuleType):
            if isinstance(slf, type):      # int.from_bytes, bytes.fromhex, dict.fromkeys
                g = BIMODELS.get((name, slf))
                if g is not None and (symargs or deep_sym(args, 2)):
                    return g(*args, **kwa)
                return f(*args, **kwa)
            if isinstance(slf, str):
                if name == "join":
                    items = list(args[0])
                    if any(isinstance(x, Sym) for x in items):
                        return SymStr(SymStr.of(slf)).join(items)
                    return slf.join(items)
                if name == "format":
                    if symargs or deep_sym(args) or deep_sym(kwa):
                        return strformat(slf, args, kwa)
                    return f(*args, **kwa)
                if symargs or (args and isinstance(args[0], tuple) and deep_sym(args[0])):
                    return getattr(SymStr(SymStr.of(slf)), name)(*args, **kwa)
                return f(*args, **kwa)
            if isinstance(slf, bytearray) and name in ("extend", "append") and symargs:
                raise Unsupported("bytearray.%s of symbolic into concrete bytearray" % name)
            if isinstance(slf, (bytes, bytearray)):
                if name == "join":
                    items = list(args[0])
                    if any(isinstance(x, Sym) for x in items):
                        return SymBytes(SymBytes.of(slf)).join(items)
                    return slf.join(items)
                if symargs or (args and isinstance(args[0], tuple) and deep_sym(args[0])):
                    return getattr(SymBytes(SymBytes.of(slf)), name)(*args, **kwa)
                return f(*args, **kwa)
            if isinstance(slf, int) and symargs:
                return getattr(S.lift(slf), name)(*args, **kwa)
            if isinstance(slf, re.Pattern) and symargs:
                return re_call(slf, name, args, kwa)
            if isinstance(slf, dict) and symargs and args and isinstance(args[0], SymSeq | SymInt) :
                return dictcall(slf, name, f, args, kwa)
            if isinstance(slf, SELFCONT):
                if name == "sort" and deep_sym(slf):
                    slf[:] = m_sorted(slf, **kwa)
                    return None
                return f(*args, **kwa)
        if symargs:
            if f in TRANSPARENT or tf is types.MethodWrapperType:
                return f(*args, **kwa)
            mod = getattr(f, "__module__", None)
            if isinstance(slf, types.ModuleType) or mod in ("_operator", "operator", "itertools", "functools"):
                if slf is operator or mod in ("_operator", "itertools", "functools"):
                    return f(*args, **kwa)
            return unmodelled(f, args, kwa)
        return f(*args, **kwa)
    return f(*args, **kwa)


def dictcall(d, name, f, args, kwa):
    k = args[0]
    if isinstance(k, SymSeq) and k.isconc():
        return f(k.mk(k.es), *args[1:], **kwa)
    if name in ("get", "pop", "__getitem__", "setdefault", "__contains__"):
        ok, key = dictkey(d, k)
        if ok:
            return getattr(d, name)(key, *args[1:], **kwa)
        if name == "get":
            return args[1] if len(args) > 1 else None
        if name == "__contains__":
            return False
        if name == "pop":
            if len(args) > 1:
                return args[1]
            raise KeyError("<sym>")
        if name == "__getitem__":
            raise KeyError("<sym>")
    return f(*args, **kwa)


def dictkey(d, k):
    """(True, concrete key) or (False, None): splits the path over the dict's keys."""
    c = _eng.CURRENT
    cands = []
    for key in d:
        e = k == key
        if e is True:
            return True, key
        if isinstance(e, SymBool):
            cands.append((key, e))
    if not cands:
        return False, None
    # binary split first on "any key", then model-guided
    if not bool(disj(*[e for _, e in cands])):
        return False, None
    for i, (key, e) in enumerate(cands):
        if i == len(cands) - 1:
            c.add(e.e)
            return True, key
        # model-guided ordering would complicate replay; plain order
        if bool(e):
            return True, key
    raise AssertionError


def nativeof(x):
    if isinstance(x, SymByteArray):
        return bytearray(x.es) if x.isconc() else x
    if isinstance(x, SymSeq) and x.isconc():
        return x.mk(x.es)
    return x


def unmodelled(f, args, kwa):
    args = [nativeof(a) for a in args]
    kwa = {k: nativeof(v) for k, v in kwa.items()}
    if not has_sym(args, kwa):
        return f(*args, **kwa)
    c = _eng.CURRENT
    c.stats.incomplete.append("sampled argument of %s" % (getattr(f, "__qualname__", f),))
    return f(*[sampled(a) for a in args], **{k: sampled(v) for k, v in kwa.items()})


PYMODELS = {}


def _py_models():
    PYMODELS[base64.urlsafe_b64encode] = m_b64encode
    PYMODELS[base64.urlsafe_b64decode] = m_urlsafe_b64decode
    PYMODELS[base64.b64encode] = lambda s, altchars=None: m_b64encode(s, url=altchars is not None)
    PYMODELS[re.match] = lambda p, s, flags=0: re_call(re.compile(p, flags), "match", (s,), {})
    PYMODELS[re.fullmatch] = lambda p, s, flags=0: re_call(re.compile(p, flags), "fullmatch", (s,), {})
    PYMODELS[re.search] = lambda p, s, flags=0: re_call(re.compile(p, flags), "search", (s,), {})




def _json(name):
    import json
    real = getattr(json, name)

    def f(x, **k):
        if deep_sym(x, 12):
            import symjson
            return getattr(symjson, name)(x, **k)
        return real(x, **k)
    f.deep = True
    return f


def _json_models():
    import json
    PYMODELS[json.dumps] = _json("dumps")
    PYMODELS[json.loads] = _json("loads")


_json_models()
_py_models()


# ------------------------------------------------------------- subscripts/in
def getitem(a, i):
    if _eng.CURRENT is None or not isinstance(i, Sym):
        if isinstance(i, slice) and isinstance(a, (str, bytes, bytearray, list, tuple)):
            return a[i]
        return a[i]
    if isinstance(a, dict):
        if isinstance(i, SymSeq) and i.isconc():
            return a[i.mk(i.es)]
        r = tablelookup(a, i)
        if r is not None:
            return r
        ok, key = dictkey(a, i)
        if ok:
            return a[key]
        if hasattr(type(a), "__missing__"):
            return a[i]
        raise KeyError("<sym>")
    if isinstance(a, (list, tuple)) and isinstance(i, (SymInt, SymBool)):
        n = len(a)
        i = S.lift(i)
        if bool(disj(i < -n, i >= n)):
            raise IndexError("index out of range")
        if n and all(isinstance(x, (int, SymInt)) and not isinstance(x, bool) for x in a) and i.lo >= 0:
            xs = [S.lift(x) for x in a]
            lo, hi = min(x.lo for x in xs), max(x.hi for x in xs)
            w = S.width_for(lo, hi)
            e = S.sext(xs[-1].e, w)
            for k in range(n - 2, -1, -1):
                e = z3.If(i.e == k, S.sext(xs[k].e, w), e) if k < (1 << (i.e.size() - 1)) else e
            return S.mkint(e, lo, hi)
        return a[i.__index__()]
    if isinstance(a, (str, bytes, bytearray)) and isinstance(i, (SymInt, SymBool)):
        n = len(a)
        i = S.lift(i)
        if bool(disj(i < -n, i >= n)):
            raise IndexError("index out of range")
        if i.lo >= 0 and n:
            W = S.CW if isinstance(a, str) else 8
            es = [ord(c) for c in a] if isinstance(a, str) else list(a)
            e = z3.BitVecVal(es[-1], W)
            for k in range(n - 2, -1, -1):
                if k < (1 << (i.e.size() - 1)):
                    e = z3.If(i.e == k, z3.BitVecVal(es[k], W), e)
            e = S.simp(e)
            if isinstance(a, str):
                return SymStr([e]).native()
            return S.mkint(z3.ZeroExt(1, e), 0, 255)
        return a[i.__index__()]
    return a[i]


STDB64 = {chr(c): k for k, c in enumerate(B64)}
STDB64R = {k: chr(c) for k, c in enumerate(B64)}


def tablelookup(d, i):
    """Lookup of a symbolic scalar in a concrete table of ints or characters as one
    term (the path splits only on key presence).  None: not applicable."""
    if len(d) < 3 or not isinstance(i, (SymInt, SymStr)):
        return None
    ks = list(d)
    if isinstance(i, SymStr):
        if len(i) != 1 or not all(type(k) is str and len(k) == 1 for k in ks):
            return None
        x = i.es[0]
    else:
        if not all(type(k) is int for k in ks):
            return None
        x = None
    vs = list(d.values())
    if all(type(v) is int for v in vs):
        kind = "int"
    elif all(type(v) is str and len(v) == 1 for v in vs):
        kind = "chr"
    else:
        return None
    if d == STDB64 and x is not None:
        x8 = S.simp(z3.Extract(7, 0, x))
        h = _eng.CURRENT.memo.get("b64inv", {}).get(x8.get_id())
        if h is not None and h[0].eq(x8) and bool(mkbool(z3.Extract(S.CW - 1, 8, x) == 0)):
            return S.mkint(z3.ZeroExt(1, h[1]), 0, 63)
        if not bool(mkbool(_eng.in_alphabet(x, ks))):
            raise KeyError("<sym>")
        ok, v = b64val(x8)
        _eng.CURRENT.memo.setdefault("b64fwd", {})[v.get_id()] = (v, x8)
        return S.mkint(z3.ZeroExt(1, v), 0, 63)
    if d == STDB64R and x is None:
        if not bool(conj(i >= 0, i <= 63)):
            raise KeyError("<sym>")
        w = i.e.size()
        v = S.simp(z3.Extract(5, 0, i.e) if w >= 6 else z3.ZeroExt(6 - w, i.e))
        return SymStr([S.simp(z3.ZeroExt(S.CW - 8, b64char(v)))]).native()
    if x is not None:
        if not bool(mkbool(_eng.in_alphabet(x, ks))):
            raise KeyError("<sym>")
        conds = [x == ord(k) for k in ks]
    else:
        if not bool(disj(*[i == k for k in ks])):
            raise KeyError("<sym>")
        conds = [_eng.tobool(i == k) for k in ks]
        conds = [z3.BoolVal(c) if isinstance(c, bool) else c for c in conds]
    if kind == "int":
        lo, hi = min(vs), max(vs)
        w = S.width_for(lo, hi)
        e = z3.BitVecVal(vs[-1], w)
        for c, v in zip(conds[:-1], vs[:-1]):
            e = z3.If(c, z3.BitVecVal(v, w), e)
        return S.mkint(e, lo, hi)
    e = z3.BitVecVal(ord(vs[-1]), S.CW)
    for c, v in zip(conds[:-1], vs[:-1]):
        e = z3.If(c, z3.BitVecVal(ord(v), S.CW), e)
    return SymStr([S.simp(e)]).native()


def setitem(a, i, v):
    if isinstance(i, Sym) and _eng.CURRENT is not None and isinstance(a, dict):
        if isinstance(i, SymSeq) and i.isconc():
            a[i.mk(i.es)] = v
            return
        ok, key = dictkey(a, i)
        if ok:
            a[key] = v
            return
    a[i] = v


def contains(a, b):
    """a in b"""
    if _eng.CURRENT is None:
        return a in b
    if isinstance(b, SymSeq):
        return b.has(a)
    if not isinstance(a, Sym):
        if isinstance(b, (str, bytes, bytearray)):
            return a in b
        if isinstance(b, (list, tuple, collections.deque)):
            if deep_sym(b, 1) and is_scalar(a):
                return disj(*[x == a for x in b])
            return a in b
        if isinstance(b, (dict, set, frozenset)) and any(isinstance(x, Sym) for x in b):
            return disj(*[x == a for x in b])
        return a in b
    if isinstance(b, str):
        return SymStr(SymStr.of(b)).has(a)
    if isinstance(b, (bytes, bytearray)):
        return SymBytes(SymBytes.of(b)).has(a)
    if isinstance(b, range) and b.step == 1:
        return conj(a >= b.start, a < b.stop)
    if isinstance(b, (list, tuple, dict, set, frozenset, collections.deque)) or \
            type(b).__name__ in ("dict_keys", "dict_values", "odict_keys"):
        rs = [a == x for x in b]
        return disj(*rs) if rs else False
    if type(b).__contains__ if hasattr(type(b), "__contains__") else None:
        return a in b
    # iterable protocol (e.g. keri's codex dataclasses)
    rs = [a == x for x in b]
    return disj(*rs) if rs else False


def is_scalar(a):
    return isinstance(a, (str, bytes, int))


def notin(a, b):
    return neg(contains(a, b))


# ------------------------------------------------------------------- format
SPEC = re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?(,|_)?(?:\.(\d+))?([a-zA-Z%])?$")


def fmt1(v, conv, spec):
    """Format one value; returns str or SymStr."""
    if conv in (ord("r"), "r") or conv in (ord("a"), "a"):
        if isinstance(v, Sym):
            return "<sym>"
        try:
            v = repr(v)
        except TypeError:
            v = "<sym>"
    elif conv in (ord("s"), "s"):
        v = m_str(v) if isinstance(v, Sym) else (str(v) if not deep_sym(v) else "<sym>")
    if isinstance(spec, SymStr):
        raise Unsupported("symbolic format spec")
    if not isinstance(v, Sym):
        return format(v, spec)
    if isinstance(v, SymBool):
        return format(bool(v), spec)
    if isinstance(v, (SymBytes, SymFrac)):
        return "<sym>"
    if isinstance(v, SymStr):
        if not spec:
            return v
        m = SPEC.match(spec)
        if not m or (m.group(9) not in (None, "s")):
            raise ValueError("bad format for str")
        fill, align, w = m.group(1) or " ", m.group(2) or "<", int(m.group(6) or 0)
        if m.group(8):
            v = v[:int(m.group(8))]
        if align == "<":
            return SymStr(SymStr.of(v)).ljust(w, fill)
        if align == ">":
            return SymStr(SymStr.of(v)).rjust(w, fill)
        raise Unsupported("align")
    m = SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    fill, align, sgn, alt, zero, width, comma, prec, ty = m.groups()
    ty = ty or "d"
    if ty not in "dxXobc":
        raise ValueError("Unknown format code '%s' for object of type 'int'" % ty)
    if comma or sgn in ("+", " "):
        raise Unsupported("format " + spec)
    base = {"d": 10, "x": 16, "X": 16, "o": 8, "b": 2}[ty]
    width = int(width or 0)
    if zero and not align:
        fill, align = "0", "="
    fill = fill or " "
    align = align or ">"
    if align == "=" and fill == "0" and not alt and width and v.lo >= 0 and v.hi < base ** width:
        return SymStr([S.digit_char(d, ty == "X") for d in v.digits(base, width)]).native()
    s = v.text(base, ty == "X")
    pre = {"x": "0x", "X": "0X", "o": "0o", "b": "0b"}.get(ty, "") if alt else ""
    if not isinstance(s, SymStr):
        s = SymStr(SymStr.of(s))
    negv = bool(s._inset(s.es[0], (45,)))
    body = s[1:] if negv else s
    sg = "-" if negv else ""
    total = len(sg) + len(pre) + len(body)
    padn = max(0, width - total)
    if align == "=":
        return sg + pre + fill * padn + body
    if align == ">":
        return fill * padn + sg + pre + body
    if align == "<":
        return sg + pre + body + fill * padn
    raise Unsupported("align ^")


def fstr(*parts):
    """parts: str literals or (value, conversion, spec)"""
    out = []
    symb = False
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            if isinstance(v, Sym) or (isinstance(v, (list, tuple, dict)) and deep_sym(v)):
                r = fmt1(v, conv, spec) if isinstance(v, Sym) else "<sym>"
            else:
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                r = format(v, spec)
            if isinstance(r, Sym):
                symb = True
            out.append(r)
    if not symb:
        return "".join(out)
    return SymStr([]).join(out) if False else _joinstr(out)


def _joinstr(out):
    es = []
    for x in out:
        es += SymStr.of(x)
    return SymStr(es).native()


def strformat(tmpl, args, kwa, auto=None):
    out = []
    auto = [0] if auto is None else auto
    fm = _string.Formatter()
    for lit, field, spec, conv in fm.parse(tmpl):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = args[auto[0]]
            auto[0] += 1
        else:
            first, rest = _string._string.formatter_field_name_split(field)
            v = args[first] if isinstance(first, int) else kwa[first]
            for isattr, k in rest:
                v = getattr(v, k) if isattr else v[k]
        if "{" in (spec or ""):
            spec = strformat(spec, args, kwa, auto)
        if not isinstance(v, Sym) and deep_sym(v):
            out.append("<sym>")
        else:
            out.append(fmt1(v, conv if conv else -1, spec or ""))
    return _joinstr(out)


PCT = re.compile(rb"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])")


def mod(a, b):
    """a % b"""
    if _eng.CURRENT is None or not isinstance(a, (str, bytes)) or not deep_sym(b):
        return a % b
    isb = isinstance(a, bytes)
    tmpl = a if isb else a.encode("utf-8")
    args = b if isinstance(b, tuple) else (b,)
    i = 0
    out = []
    pos = 0
    for m in PCT.finditer(tmpl):
        lit = tmpl[pos:m.start()]
        out.append(lit if isb else lit.decode())
        pos = m.end()
        key, flags, width, prec, ty = m.groups()
        if ty == b"%":
            out.append(b"%" if isb else "%")
            continue
        v = args[i]
        i += 1
        t = ty.decode()
        if t in "sb":
            if isb:
                out.append(v)
            else:
                out.append(v if isinstance(v, SymStr) else m_str(v))
        elif t in "dixXo":
            f = flags.decode()
            if "-" in f or "+" in f or " " in f:
                raise Unsupported("percent flags")
            if isinstance(v, int):
                spec = ("%" + f + (width or b"").decode() + t) % v
                r = spec
            else:
                r = fmt1(v, -1, ("#" if "#" in f else "") + ("0" if "0" in f else "") + (width or b"").decode() + ("d" if t in "di" else t))
            out.append(r.encode() if isb else r)
        elif t in "ra":
            out.append(b"<sym>" if isb else "<sym>")
        else:
            raise Unsupported("percent format " + t)
    lit = tmpl[pos:]
    out.append(lit if isb else lit.decode())
    if isb:
        es = []
        for x in out:
            es += SymBytes.of(x)
        return SymBytes(es).native()
    return _joinstr(out)


def iadd(a, b):
    """a += b where a may be a concrete bytearray and b symbolic"""
    return NotImplemented


# --------------------------------------------------------------------- regex
class SymMatch:
    def __init__(self, s, span, groups, names, ngroups):
        self.string = s
        self._span = span
        self._groups = groups
        self._names = names
        self._n = ngroups
        self.lastindex = max(groups) if groups else None

    def _sp(self, g):
        if g == 0:
            return self._span
        if isinstance(g, str):
            if g not in self._names:
                raise IndexError("no such group")
            g = self._names[g]
        if g > self._n:
            raise IndexError("no such group")
        return self._groups.get(g)

    def group(self, *gs):
        gs = gs or (0,)
        r = []
        for g in gs:
            sp = self._sp(g)
            r.append(None if sp is None else self.string[sp[0]:sp[1]])
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._groups.get(g) is None else self.group(g) for g in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {n: (default if self._groups.get(g) is None else self.group(g)) for n, g in self._names.items()}

    def start(self, g=0):
        sp = self._sp(g)
        return -1 if sp is None else sp[0]

    def end(self, g=0):
        sp = self._sp(g)
        return -1 if sp is None else sp[1]

    def span(self, g=0):
        sp = self._sp(g)
        return (-1, -1) if sp is None else sp

    def __bool__(self):
        return True


def re_call(pat, name, args, kwa):
    import re._parser as sp
    import re._constants as sc
    s = args[0]
    isstr = isinstance(pat.pattern, str)
    if isinstance(s, SymStr) != isstr:
        raise TypeError("cannot use a string pattern on a bytes-like object")
    pos = args[1] if len(args) > 1 else kwa.get("pos", 0)
    if name not in ("match", "fullmatch", "search"):
        raise Unsupported("regex " + name)
    tree = sp.parse(pat.pattern, pat.flags & ~re.UNICODE if not isstr else pat.flags)
    M = ReMatch(s, pat.flags, sc)
    starts = range(pos, len(s) + 1) if name == "search" else [pos]
    for st in starts:
        for end, groups in M.seq(list(tree), 0, st, {}):
            if name == "fullmatch" and end != len(s):
                continue
            return SymMatch(s, (st, end), groups, dict(pat.groupindex), pat.groups)
    return None


class ReMatch:
    def __init__(self, s, flags, sc):
        self.s = s
        self.es = s.es
        self.W = s.W
        self.flags = flags
        self.c = sc
        self.memo = {}

    def cls(self, items, e):
        """membership formula for IN items"""
        c = self.c
        negate = False
        cs = []
        x = S.el(e, self.W)
        for op, av in items:
            if op is c.NEGATE:
                negate = True
            elif op is c.LITERAL:
                cs.append(x == av)
            elif op is c.RANGE:
                cs.append(z3.And(z3.UGE(x, av[0]), z3.ULE(x, av[1])))
            elif op is c.CATEGORY:
                cs.append(self.cat(av, x))
            else:
                raise Unsupported("regex class %s" % op)
        r = z3.Or(*cs) if cs else z3.BoolVal(False)
        return z3.Not(r) if negate else r

    def pycls(self, items, e):
        c = self.c
        neg = hit = False
        ch = chr(e)
        asc = self.W <= 8 or self.flags & re.ASCII
        for op, av in items:
            if op is c.NEGATE:
                neg = True
            elif op is c.LITERAL:
                hit |= e == av
            elif op is c.RANGE:
                hit |= av[0] <= e <= av[1]
            elif op is c.CATEGORY:
                low = e < 128 or not asc
                d = low and ch.isdecimal()
                w = low and (ch.isalnum() or ch == "_")
                sp = low and ch.isspace() and not (asc and 28 <= e <= 31)
                hit |= {c.CATEGORY_DIGIT: d, c.CATEGORY_NOT_DIGIT: not d, c.CATEGORY_WORD: w, c.CATEGORY_NOT_WORD: not w,
                        c.CATEGORY_SPACE: sp, c.CATEGORY_NOT_SPACE: not sp}[av]
            else:
                raise Unsupported("regex class %s" % op)
        return bool(hit) != neg

    def cat(self, av, x):
        c = self.c
        if self.W > 8:
            # str patterns: unicode classes; exact for ascii only
            if not (self.flags & re.ASCII) and bool(mkbool(z3.UGE(x, 128))):
                raise Unsupported("unicode category")
        dig = z3.And(z3.UGE(x, 48), z3.ULE(x, 57))
        word = z3.Or(dig, z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), z3.And(z3.UGE(x, 97), z3.ULE(x, 122)), x == 95)
        sp = z3.Or(x == 32, z3.And(z3.UGE(x, 9), z3.ULE(x, 13)))
        if self.W > 8 and not self.flags & re.ASCII:
            sp = z3.Or(sp, z3.And(z3.UGE(x, 28), z3.ULE(x, 31)))
        return {c.CATEGORY_DIGIT: dig, c.CATEGORY_NOT_DIGIT: z3.Not(dig), c.CATEGORY_WORD: word,
                c.CATEGORY_NOT_WORD: z3.Not(word), c.CATEGORY_SPACE: sp, c.CATEGORY_NOT_SPACE: z3.Not(sp)}[av]

    def ahead(self, op, av, i, hi):
        """When every character from i on passes the same test, learns that at once."""
        c = self.c
        if op not in (c.LITERAL, c.NOT_LITERAL, c.IN) or self.flags & re.IGNORECASE:
            return
        end = len(self.es) if hi is c.MAXREPEAT else min(len(self.es), i + hi)
        key = lambda j: (id(av) if op is c.IN else (op, av), j)
        todo = [j for j in range(i, end) if key(j) not in self.memo and not isinstance(self.es[j], int)]
        if len(todo) < 2 or op is c.IN and any(o is c.CATEGORY for o, _ in av) and self.W > 8:
            return
        fs = []
        for j in todo:
            x = S.el(self.es[j], self.W)
            fs.append(x == av if op is c.LITERAL else x != av if op is c.NOT_LITERAL else self.cls(av, self.es[j]))
        if bool(mkbool(z3.And(*fs))):
            for j in todo:
                self.memo[key(j)] = True
            self.keep = getattr(self, "keep", []) + [av]

    def one(self, op, av, i):
        """single-char test -> bool (splits)"""
        if i >= len(self.es):
            return False
        c = self.c
        e = self.es[i]
        key = (id(av) if op is c.IN else (op, av), i)
        if key in self.memo:
            return self.memo[key]
        if isinstance(e, int) and not self.flags & re.IGNORECASE:
            if op is c.IN:
                r = self.pycls(av, e)
            else:
                r = e == av if op is c.LITERAL else e != av if op is c.NOT_LITERAL else bool(self.flags & re.DOTALL) or e != 10
            self.memo[key] = r
            self.keep = getattr(self, "keep", []) + [av]
            return r
        x = S.el(e, self.W)
        if self.flags & re.IGNORECASE and op in (c.LITERAL, c.IN):
            lo = z3.If(z3.And(z3.UGE(x, 65), z3.ULE(x, 90)), x + 32, x)
            up = z3.If(z3.And(z3.UGE(x, 97), z3.ULE(x, 122)), x - 32, x)
            if op is c.LITERAL:
                f = z3.Or(lo == av, up == av)
            else:
                f = z3.Or(self.cls(av, lo), self.cls(av, up))
        elif op is c.LITERAL:
            f = x == av
        elif op is c.NOT_LITERAL:
            f = x != av
        elif op is c.ANY:
            f = z3.BoolVal(True) if self.flags & re.DOTALL else x != 10
        elif op is c.IN:
            f = self.cls(av, e)
        else:
            raise Unsupported("regex op")
        r = bool(mkbool(f))
        self.memo[key] = r
        self.keep = getattr(self, "keep", []) + [av]
        return r

    def seq(self, items, k, i, groups):
        """yields (end, groups) in backtracking order"""
        c = self.c
        if k == len(items):
            yield i, groups
            return
        op, av = items[k]
        if op in (c.LITERAL, c.NOT_LITERAL, c.ANY, c.IN):
            if self.one(op, av, i):
                yield from self.seq(items, k + 1, i + 1, groups)
        elif op is c.AT:
            if self.at(av, i):
                yield from self.seq(items, k + 1, i, groups)
        elif op is c.SUBPATTERN:
            g, addf, delf, p = av
            for j, gr in self.seq(list(p), 0, i, groups):
                if g is not None:
                    gr = dict(gr)
                    gr[g] = (i, j)
                yield from self.seq(items, k + 1, j, gr)
        elif op is c.BRANCH:
            for p in av[1]:
                for j, gr in self.seq(list(p), 0, i, groups):
                    yield from self.seq(items, k + 1, j, gr)
        elif op in (c.MAX_REPEAT, c.MIN_REPEAT):
            lo, hi, p = av
            yield from self.rep(op is c.MAX_REPEAT, lo, hi, list(p), 0, i, groups, items, k)
        elif op in (c.ASSERT, c.ASSERT_NOT):
            d, p = av
            if d != 1:
                raise Unsupported("lookbehind")
            ok = next(iter(self.seq(list(p), 0, i, groups)), None) is not None
            if ok == (op is c.ASSERT):
                yield from self.seq(items, k + 1, i, groups)
        else:
            raise Unsupported("regex %s" % op)

    def rep(self, greedy, lo, hi, p, n, i, groups, items, k):
        if n == 0 and len(p) == 1 and (greedy or lo):
            self.ahead(p[0][0], p[0][1], i, hi if greedy else lo)
        if n < lo:
            for j, gr in self.seq(p, 0, i, groups):
                yield from self.rep(greedy, lo, hi, p, n + 1, j, gr, items, k)
            return
        if not greedy:
            yield from self.seq(items, k + 1, i, groups)
        if hi is self.c.MAXREPEAT or n < hi:
            for j, gr in self.seq(p, 0, i, groups):
                if j == i:
                    continue
                yield from self.rep(greedy, lo, hi, p, n + 1, j, gr, items, k)
        if greedy:
            yield from self.seq(items, k + 1, i, groups)

    def at(self, av, i):
        c = self.c
        n = len(self.es)
        if av in (c.AT_BEGINNING, c.AT_BEGINNING_STRING):
            if av is c.AT_BEGINNING and self.flags & re.MULTILINE:
                raise Unsupported("multiline")
            return i == 0
        if av is c.AT_END_STRING:
            return i == n
        if av is c.AT_END:
            if self.flags & re.MULTILINE:
                raise Unsupported("multiline")
            if i == n:
                return True
            return i == n - 1 and bool(S.eqel(self.es[i], 10))
        raise Unsupported("regex at %s" % av)
