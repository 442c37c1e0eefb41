"""Symbolic proxies for bool, int, str, bytes, bytearray.

SymInt carries a signed two's complement bit-vector wide enough for its interval
[lo, hi]; every operation widens as needed, so Python's unbounded integers are
represented exactly (no wrap-around).  Sequences have a concrete length per path
and elements that are Python ints or bit-vectors.
"""
import z3
from . import engine as _eng

CW = 21   # code point width
BW = 8


def cur():
    e = _eng.CURRENT
    if e is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return e


def width_for(lo, hi):
    w = 1
    n = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
    return n + 1


def simp(e):
    return z3.simplify(e)


def sext(e, w):
    d = w - e.size()
    return z3.SignExt(d, e) if d > 0 else e


def is_sym(x):
    return isinstance(x, (SymBool, SymInt, SymSeq, SymFrac))


class Sym:
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().fork(self.e)

    def _int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, bool):
            return SymBool(self.e if o else z3.Not(self.e))
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        if isinstance(o, (int, SymInt)):
            return self._int() == o
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.And(self.e, bexpr(o)))
        return self._int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.Or(self.e, bexpr(o)))
        return self._int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(z3.Xor(self.e, bexpr(o)))
        return self._int() ^ o
    __rxor__ = __xor__

    def __invert__(self):
        return ~self._int()

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return "<SymBool>"

    def __format__(self, spec):
        return format(bool(self), spec)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "lt", "le", "gt", "ge",
           "lshift", "rlshift", "rshift", "rrshift", "floordiv", "mod", "neg"):
    def _mk(n):
        def f(self, *a):
            return getattr(self._int(), n)(*a)
        return f
    setattr(SymBool, "__%s__" % _n, _mk("__%s__" % _n))


def bexpr(b):
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, z3.BoolRef):
        return b
    return z3.BoolVal(bool(b))


def neg(b):
    if isinstance(b, SymBool):
        return SymBool(z3.Not(b.e))
    if b is NotImplemented:
        return b
    return not b


def conj(*bs):
    """Non-forking conjunction."""
    if not any(isinstance(b, (SymBool, z3.BoolRef)) for b in bs):
        return all(bs)
    return mkbool(z3.And(*[bexpr(b) for b in bs]))


def disj(*bs):
    if not any(isinstance(b, (SymBool, z3.BoolRef)) for b in bs):
        return any(bs)
    return mkbool(z3.Or(*[bexpr(b) for b in bs]))


def mkbool(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def lift(x):
    """int/bool/SymBool/SymInt -> SymInt or None."""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._int()
    if isinstance(x, int):
        return SymInt(z3.BitVecVal(x, width_for(x, x)), x, x)
    return None


def mkint(e, lo, hi):
    """Bit-vector term (signed) known to lie in [lo, hi] -> int or SymInt."""
    if lo == hi:
        return lo
    e = simp(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    w = width_for(lo, hi)
    if e.size() > w:
        e = simp(z3.Extract(w - 1, 0, e))
    elif e.size() < w:
        e = sext(e, w)
    return SymInt(e, lo, hi)


class SymInt(Sym):
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    # -- arithmetic
    def _bin(self, o, fe, lo, hi):
        w = max(width_for(lo, hi), self.e.size(), o.e.size())
        return mkint(fe(sext(self.e, w), sext(o.e, w)), lo, hi)

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self._bin(o, lambda a, b: a + b, self.lo + o.lo, self.hi + o.hi)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self._bin(o, lambda a, b: a - b, self.lo - o.hi, self.hi - o.lo)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o.__sub__(self)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, SymSeq)):
            return o * self.__index__()
        o = lift(o)
        if o is None:
            return NotImplemented
        ps = [a * b for a in (self.lo, self.hi) for b in (o.lo, o.hi)]
        return self._bin(o, lambda a, b: a * b, min(ps), max(ps))
    __rmul__ = __mul__

    def __neg__(self):
        return lift(0) - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        w = width_for(-max(-self.lo, self.hi), max(-self.lo, self.hi))
        a = sext(self.e, w)
        return mkint(z3.If(a < 0, -a, a), 0, max(-self.lo, self.hi))

    def __invert__(self):
        return (-self) - 1

    def _divmod(self, o):
        if o.lo <= 0 <= o.hi:
            if bool(o == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
        if self.lo >= 0 and o.lo >= 0:
            w = max(self.e.size(), o.e.size())
            a, b = sext(self.e, w), sext(o.e, w)
            q = mkint(z3.UDiv(a, b), self.lo // max(o.hi, 1), self.hi // max(o.lo, 1))
            r = mkint(z3.URem(a, b), 0, min(self.hi, o.hi - 1) if o.hi > 0 else 0)
            return q, r
        m = max(abs(self.lo), abs(self.hi)) + 1
        n = max(abs(o.lo), abs(o.hi)) + 1
        w = max(width_for(-m, m), width_for(-n, n)) + 1
        a, b = sext(self.e, w), sext(o.e, w)
        q0 = a / b                       # signed, truncating
        r0 = z3.SRem(a, b)
        adj = z3.And(r0 != 0, (r0 < 0) != (b < 0))
        q = mkint(z3.If(adj, q0 - 1, q0), -m, m)
        r = mkint(z3.If(adj, r0 + b, r0), -n, n)
        return q, r

    def __floordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self._divmod(o)[0]

    def __rfloordiv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o._divmod(self)[0]

    def __mod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self._divmod(o)[1]

    def __rmod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o._divmod(self)[1]

    def __divmod__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self._divmod(o)

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return SymFrac(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymFrac(o, self)

    def __pow__(self, o, mod=None):
        o = o.__index__()
        if mod is not None or o < 0:
            return pow(self.__index__(), o, mod)
        r = 1
        for _ in range(o):
            r = self * r
        return r

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        k = int(o.__index__())
        if k < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo << k, self.hi << k
        w = width_for(lo, hi)
        return mkint(sext(self.e, max(w, self.e.size())) << k, lo, hi)

    def __rlshift__(self, o):
        return lift(o) << self.__index__()

    def __rshift__(self, o):
        k = int(o.__index__())
        if k < 0:
            raise ValueError("negative shift count")
        if k >= self.e.size():
            k = self.e.size()
            e = sext(self.e, k + 1) >> k
        else:
            e = self.e >> k
        return mkint(e, self.lo >> k, self.hi >> k)

    def __rrshift__(self, o):
        return lift(o) >> self.__index__()

    def _bit(self, o, fe, name):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.lo >= 0 and o.lo >= 0:
            if name == "and":
                lo, hi = 0, min(self.hi, o.hi)
            else:
                lo, hi = 0, (1 << max(self.hi.bit_length(), o.hi.bit_length())) - 1
        elif name == "and" and (self.lo >= 0 or o.lo >= 0):
            lo, hi = 0, (self.hi if self.lo >= 0 else o.hi)
        else:
            n = max(self.e.size(), o.e.size())
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        return self._bin(o, fe, lo, hi)

    def __and__(self, o):
        return self._bit(o, lambda a, b: a & b, "and")
    __rand__ = __and__

    def __or__(self, o):
        return self._bit(o, lambda a, b: a | b, "or")
    __ror__ = __or__

    def __xor__(self, o):
        return self._bit(o, lambda a, b: a ^ b, "xor")
    __rxor__ = __xor__

    # -- comparison
    def _cmp(self, o, fe, surely, never):
        if isinstance(o, float):
            return NotImplemented
        o = lift(o)
        if o is None:
            return NotImplemented
        if surely(self, o):
            return True
        if never(self, o):
            return False
        w = max(self.e.size(), o.e.size())
        return mkbool(fe(sext(self.e, w), sext(o.e, w)))

    def __lt__(self, o):
        if isinstance(o, SymFrac):
            return o > self
        return self._cmp(o, lambda a, b: a < b, lambda s, o: s.hi < o.lo, lambda s, o: s.lo >= o.hi)

    def __le__(self, o):
        if isinstance(o, SymFrac):
            return o >= self
        return self._cmp(o, lambda a, b: a <= b, lambda s, o: s.hi <= o.lo, lambda s, o: s.lo > o.hi)

    def __gt__(self, o):
        if isinstance(o, SymFrac):
            return o < self
        return self._cmp(o, lambda a, b: a > b, lambda s, o: s.lo > o.hi, lambda s, o: s.hi <= o.lo)

    def __ge__(self, o):
        if isinstance(o, SymFrac):
            return o <= self
        return self._cmp(o, lambda a, b: a >= b, lambda s, o: s.lo >= o.hi, lambda s, o: s.hi < o.lo)

    def __eq__(self, o):
        if isinstance(o, SymFrac):
            return o == self
        r = self._cmp(o, lambda a, b: a == b, lambda s, o: s.lo == s.hi == o.lo == o.hi,
                      lambda s, o: s.hi < o.lo or s.lo > o.hi)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return cur().fork(self.e != 0)

    def __index__(self):
        v = cur().value(self.e)
        if v >= 1 << (self.e.size() - 1):
            v -= 1 << self.e.size()
        return v

    __int__ = __index__
    __trunc__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __round__(self, n=None):
        return self

    __ceil__ = __floor__ = lambda self: self

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        a = abs(self)
        if not isinstance(a, SymInt):
            return a.bit_length()
        n = a.hi.bit_length()
        w = n.bit_length() + 1
        e = z3.BitVecVal(0, w)
        for k in range(n):
            e = z3.If(z3.Extract(k, k, a.e) == 1, z3.BitVecVal(k + 1, w), e)
        return mkint(e, a.lo.bit_length(), n)

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = length.__index__()
        if signed:
            if bool(disj(self < -(1 << (8 * length - 1)), self >= (1 << (8 * length - 1)))):
                raise OverflowError("int too big to convert")
        else:
            if bool(self < 0):
                raise OverflowError("can't convert negative int to unsigned")
            if bool(self >= (1 << (8 * length))):
                raise OverflowError("int too big to convert")
        if length == 0:
            return b""
        e = sext(self.e, max(8 * length, self.e.size()))
        es = [simp(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(length)]
        if byteorder == "big":
            es.reverse()
        return SymBytes(es).native()

    def digits(self, base, ndig):
        """Most significant first digit bit-vectors (non-negative self)."""
        e = self.e
        out = []
        if base in (2, 8, 16, 64):
            k = base.bit_length() - 1
            e = sext(e, max(e.size(), k * ndig))
            for i in range(ndig):
                out.append(z3.Extract(k * i + k - 1, k * i, e))
        else:
            w = e.size()
            b = z3.BitVecVal(base, w) if w > base.bit_length() else None
            if b is None:
                e = sext(e, base.bit_length() + 2)
                w = e.size()
                b = z3.BitVecVal(base, w)
            for i in range(ndig):
                out.append(z3.URem(e, b))
                e = z3.UDiv(e, b)
        if self.lo >= 0:        # digits the bounds leave no choice in
            for i in range(ndig):
                q = base ** i
                if self.lo // q == self.hi // q:
                    out[i] = z3.BitVecVal(self.lo // q % base, out[i].size())
        out.reverse()
        return out

    def text(self, base=10, upper=False):
        """Symbolic str of self in base; splits on sign and number of digits."""
        if bool(self < 0):
            return "-" + (-self).text(base, upper) if isinstance(-self, SymInt) else inttext(-(-self), base)
        n = 1
        while self.hi >= base ** n:
            if bool(self < base ** n):
                break
            n += 1
        return SymStr([digit_char(d, upper) for d in self.digits(base, n)]).native()

    def __format__(self, spec):
        raise TypeError("format of SymInt outside instrumented code")

    def __str__(self):
        return "<SymInt>"
    __repr__ = __str__


def inttext(v, base):
    if isinstance(v, SymInt):
        return v.text(base)
    return {10: "%d", 16: "%x", 8: "%o"}[base] % v if base != 2 else bin(v)[2:]


def digit_char(d, upper=False):
    w = max(CW, d.size())
    x = z3.ZeroExt(w - d.size(), d)
    a = ord("A") if upper else ord("a")
    c = z3.If(z3.ULT(x, 10), x + 48, x + (a - 10))
    return simp(z3.Extract(CW - 1, 0, c))


class SymFrac(Sym):
    """Exact rational num/den with symbolic parts; den > 0 required."""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n = n
        self.d = d
        if bool(lift(d) == 0):
            raise ZeroDivisionError("division by zero")
        if bool(lift(d) < 0):
            self.n, self.d = -n, -d

    @staticmethod
    def of(x):
        if isinstance(x, SymFrac):
            return x
        if isinstance(x, (int, SymInt, SymBool)):
            r = SymFrac.__new__(SymFrac)
            r.n, r.d = x, 1
            return r
        if hasattr(x, "numerator"):
            r = SymFrac.__new__(SymFrac)
            r.n, r.d = x.numerator, x.denominator
            return r
        if isinstance(x, float) and x == int(x):
            return SymFrac.of(int(x))
        return None

    def _ar(self, o, f):
        o = SymFrac.of(o)
        if o is None:
            return NotImplemented
        r = SymFrac.__new__(SymFrac)
        r.n, r.d = f(self, o)
        return r

    def __add__(self, o):
        return self._ar(o, lambda a, b: (a.n * b.d + b.n * a.d, a.d * b.d))
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: (a.n * b.d - b.n * a.d, a.d * b.d))

    def __mul__(self, o):
        return self._ar(o, lambda a, b: (a.n * b.n, a.d * b.d))
    __rmul__ = __mul__

    def _c(self, o, op):
        o = SymFrac.of(o)
        if o is None:
            return NotImplemented
        import operator
        return getattr(operator, op)(lift(self.n * o.d), lift(o.n * self.d))

    def __lt__(self, o): return self._c(o, "lt")
    def __le__(self, o): return self._c(o, "le")
    def __gt__(self, o): return self._c(o, "gt")
    def __ge__(self, o): return self._c(o, "ge")
    def __eq__(self, o): return self._c(o, "eq")
    def __ne__(self, o): return neg(self._c(o, "eq"))
    def __hash__(self): raise _eng.Unsupported("hash of SymFrac")
    def __bool__(self): return bool(lift(self.n) != 0)

    @property
    def numerator(self): return self.n

    @property
    def denominator(self): return self.d

    def __ceil__(self):
        return -((-lift(self.n)) // self.d)

    def __floor__(self):
        return lift(self.n) // self.d

    def __trunc__(self):
        if bool(lift(self.n) >= 0):
            return self.__floor__()
        return self.__ceil__()

    def __round__(self, nd=None):
        raise _eng.Unsupported("round of SymFrac")

    def __repr__(self):
        return "<SymFrac>"


# ---------------------------------------------------------------- sequences
def el(x, w):
    """element -> bit-vector of width w"""
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x


def eleq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return el(a, w) == el(b, w)


def norm(e):
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e


class SymSeq(Sym):
    __slots__ = ("es",)
    W = 8

    def __init__(self, es):
        self.es = [norm(e) for e in es]

    # -- construction helpers
    @classmethod
    def of(cls, x):
        """elements of a compatible value, or None"""
        raise NotImplementedError

    def native(self):
        """Concrete object when every element is concrete."""
        if all(isinstance(e, int) for e in self.es):
            return self.mk(self.es)
        return self

    def isconc(self):
        return all(isinstance(e, int) for e in self.es)

    def conc(self):
        """Concretise by splitting (for hash and unmodelled uses)."""
        if self.isconc():
            return self.mk(self.es)
        raise _eng.Unsupported("concretisation of symbolic %s" % type(self).__name__)

    def sampled(self):
        """One value (incomplete)."""
        c = cur()
        self_es = [e if isinstance(e, int) else c.sample(e) for e in self.es]
        return self.mk(self_es)

    def __len__(self):
        return len(self.es)

    def __bool__(self):
        return len(self.es) > 0

    def __hash__(self):
        if self.isconc():
            return hash(self.mk(self.es))
        c = cur()
        t = tuple(c.value(e) if not isinstance(e, int) else e for e in self.es)
        return hash(self.mk(t))

    def new(self, es):
        return type(self)(es).native()

    def eqx(self, o):
        oes = self.of(o)
        if oes is None:
            return None
        if len(oes) != len(self.es):
            return False
        cs = []
        for a, b in zip(self.es, oes):
            r = eleq(a, b, self.W)
            if r is True:
                continue
            if r is False:
                return False
            cs.append(r)
        if not cs:
            return True
        return mkbool(z3.And(*cs) if len(cs) > 1 else cs[0])

    def __eq__(self, o):
        r = self.eqx(o)
        return False if r is None else r

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def _lex(self, o, strict):
        oes = self.of(o)
        if oes is None:
            return NotImplemented
        n = min(len(self.es), len(oes))
        if len(self.es) < len(oes):
            r = True
        elif len(self.es) > len(oes):
            r = False
        else:
            r = not strict
        ps = []
        for a, b in zip(self.es[:n], oes[:n]):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:          # decides at the latest
                    r = a < b
                    break
            elif a is not b:
                ps.append((a, b))
        if not ps:
            return r
        r = z3.BoolVal(r)
        for a, b in reversed(ps):
            a, b = el(a, self.W), el(b, self.W)
            r = z3.If(a == b, r, z3.ULT(a, b))
        return mkbool(r)

    def __lt__(self, o): return self._lex(o, True)
    def __le__(self, o): return self._lex(o, False)

    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else neg(r)

    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else neg(r)

    def __add__(self, o):
        oes = self.of(o)
        if oes is None:
            return NotImplemented
        return self.new(self.es + list(oes))

    def __radd__(self, o):
        oes = self.of(o)
        if oes is None:
            return NotImplemented
        return self.new(list(oes) + self.es)

    def __mul__(self, n):
        return self.new(self.es * n.__index__())
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            return self.new(self.es[i])
        if isinstance(i, SymInt):
            n = len(self.es)
            if bool(disj(i < -n, i >= n)):
                raise IndexError("index out of range")
            j = i.__index__()
        else:
            j = i.__index__()
        return self.item(self.es[j])

    def __iter__(self):
        for e in list(self.es):
            yield self.item(e)

    def __reversed__(self):
        for e in reversed(list(self.es)):
            yield self.item(e)

    def _match_at(self, pes, i):
        if i < 0 or i + len(pes) > len(self.es):
            return False
        cs = []
        for k, b in enumerate(pes):
            r = eleq(self.es[i + k], b, self.W)
            if r is True:
                continue
            if r is False:
                return False
            cs.append(r)
        if not cs:
            return True
        return mkbool(z3.And(*cs) if len(cs) > 1 else cs[0])

    def _need(self, o):
        oes = self.of(o)
        if oes is None:
            raise TypeError("a %s-like object is required, not %s" % (self.mk([]).__class__.__name__, type(o).__name__))
        return list(oes)

    def startswith(self, p, start=0, end=None):
        s = self if (start == 0 and end is None) else self.of_es(self.es[start:end])
        if isinstance(p, tuple):
            return disj(*[s.startswith(x) for x in p]) if p else False
        return s._match_at(s._need(p), 0)

    def endswith(self, p, start=0, end=None):
        s = self if (start == 0 and end is None) else self.of_es(self.es[start:end])
        if isinstance(p, tuple):
            return disj(*[s.endswith(x) for x in p]) if p else False
        pes = s._need(p)
        return s._match_at(pes, len(s.es) - len(pes))

    def of_es(self, es):
        return type(self)(es)

    def _needle(self, p):
        if isinstance(p, (int, SymInt)) and not isinstance(self, SymStr):
            return [p if isinstance(p, int) else simp(z3.Extract(7, 0, sext(p.e, 9)))]
        return self._need(p)

    def _range(self, start, end):
        s, e, _ = slice(None if start is None else start.__index__(),
                        None if end is None else end.__index__()).indices(len(self.es))
        return s, e

    def find(self, p, start=None, end=None):
        pes = self._needle(p)
        s, e = self._range(start, end)
        for i in range(s, e - len(pes) + 1):
            if bool(self._match_at(pes, i)):
                return i
        return -1

    def rfind(self, p, start=None, end=None):
        pes = self._needle(p)
        s, e = self._range(start, end)
        for i in range(e - len(pes), s - 1, -1):
            if bool(self._match_at(pes, i)):
                return i
        return -1

    def index(self, p, start=None, end=None):
        i = self.find(p, start, end)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def rindex(self, p, start=None, end=None):
        i = self.rfind(p, start, end)
        if i < 0:
            raise ValueError("subsection not found")
        return i

    def has(self, p):
        """`p in self` as a formula (no split)."""
        pes = self._needle(p)
        if not pes:
            return True
        return disj(*[self._match_at(pes, i) for i in range(len(self.es) - len(pes) + 1)]) if len(self.es) >= len(pes) else False

    def __contains__(self, p):
        return bool(self.has(p))

    def count(self, p):
        pes = self._needle(p)
        i = n = 0
        while i + len(pes) <= len(self.es):
            if bool(self._match_at(pes, i)):
                n += 1
                i += len(pes) or 1
            else:
                i += 1
        return n

    def _isws(self, e):
        ws = (9, 10, 11, 12, 13, 32) if not isinstance(self, SymStr) else \
             (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0)
        return self._inset(e, ws)

    def _inset(self, e, vals):
        if isinstance(e, int):
            return e in vals
        return mkbool(z3.Or(*[e == v if isinstance(v, int) else e == el(v, self.W) for v in vals])) if len(vals) else False

    def lstrip(self, chars=None):
        es = list(self.es)
        cs = None if chars is None else self._need(chars)
        while es and bool(self._isws(es[0]) if cs is None else self._inset(es[0], cs)):
            es.pop(0)
        return self.new(es)

    def rstrip(self, chars=None):
        es = list(self.es)
        cs = None if chars is None else self._need(chars)
        while es and bool(self._isws(es[-1]) if cs is None else self._inset(es[-1], cs)):
            es.pop()
        return self.new(es)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, curp = [], []
            for k, e in enumerate(self.es):
                if bool(self._isws(e)):
                    if curp:
                        out.append(self.new(curp))
                        curp = []
                else:
                    if not curp and maxsplit >= 0 and len(out) >= maxsplit:
                        rest = self.of_es(self.es[k:])
                        out.append(rest.rstrip() if isinstance(rest, SymSeq) else rest)
                        return out
                    curp.append(e)
            if curp:
                out.append(self.new(curp))
            return out
        pes = self._need(sep)
        if not pes:
            raise ValueError("empty separator")
        out, i, last = [], 0, 0
        while i + len(pes) <= len(self.es):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if bool(self._match_at(pes, i)):
                out.append(self.new(self.es[last:i]))
                i += len(pes)
                last = i
            else:
                i += 1
        out.append(self.new(self.es[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise _eng.Unsupported("rsplit on whitespace")
        pes = self._need(sep)
        if not pes:
            raise ValueError("empty separator")
        out, i, last = [], len(self.es) - len(pes), len(self.es)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if bool(self._match_at(pes, i)):
                out.append(self.new(self.es[i + len(pes):last]))
                last = i
                i -= len(pes)
            else:
                i -= 1
        out.append(self.new(self.es[:last]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self.native(), self.mk([]), self.mk([]))
        n = len(self._need(sep))
        return (self.new(self.es[:i]), sep, self.new(self.es[i + n:]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return (self.mk([]), self.mk([]), self.native())
        n = len(self._need(sep))
        return (self.new(self.es[:i]), sep, self.new(self.es[i + n:]))

    def replace(self, a, b, count=-1):
        pes, bes = self._need(a), self._need(b)
        if not pes:
            raise _eng.Unsupported("replace of empty")
        if len(pes) == 1 and len(bes) == 1 and count < 0:
            out = []
            for e in self.es:
                if isinstance(e, int) and isinstance(pes[0], int):
                    out.append(bes[0] if e == pes[0] else e)
                else:
                    out.append(simp(z3.If(el(e, self.W) == el(pes[0], self.W), el(bes[0], self.W), el(e, self.W))))
            return self.new(out)
        out, i, n = [], 0, 0
        while i < len(self.es):
            if (count < 0 or n < count) and bool(self._match_at(pes, i)):
                out += bes
                i += len(pes)
                n += 1
            else:
                out.append(self.es[i])
                i += 1
        return self.new(out)

    def removeprefix(self, p):
        return self.new(self.es[len(self._need(p)):]) if bool(self.startswith(p)) else self.native()

    def removesuffix(self, p):
        n = len(self._need(p))
        return self.new(self.es[:len(self.es) - n]) if n and bool(self.endswith(p)) else self.native()

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self.es
            first = False
            out += self._need(x)
        return self.new(out)

    def rjust(self, n, fill=None):
        f = self._need(fill) if fill is not None else [32]
        return self.new(f * max(0, n - len(self.es)) + self.es)

    def ljust(self, n, fill=None):
        f = self._need(fill) if fill is not None else [32]
        return self.new(self.es + f * max(0, n - len(self.es)))

    def zfill(self, n):
        if self.es and bool(self._inset(self.es[0], (43, 45))):
            return self.new(self.es[:1] + [48] * max(0, n - len(self.es)) + self.es[1:])
        return self.new([48] * max(0, n - len(self.es)) + self.es)

    def _map(self, lo, hi, d):
        out = []
        for e in self.es:
            if isinstance(e, int):
                out.append(e + d if lo <= e <= hi else e)
            else:
                out.append(simp(z3.If(z3.And(z3.UGE(e, lo), z3.ULE(e, hi)), e + d, e)))
        return self.new(out)

    def _ascii_only(self):
        if isinstance(self, SymStr):
            for e in self.es:
                if not isinstance(e, int) and bool(mkbool(z3.UGE(e, 128))):
                    raise _eng.Unsupported("case mapping of non-ascii")

    def lower(self):
        self._ascii_only()
        return self._map(65, 90, 32)

    def upper(self):
        self._ascii_only()
        return self._map(97, 122, -32)

    casefold = lower

    def _allin(self, ranges):
        if not self.es:
            return False
        self._ascii_only()
        cs = []
        for e in self.es:
            if isinstance(e, int):
                if not any(a <= e <= b for a, b in ranges):
                    return False
            else:
                cs.append(z3.Or(*[z3.And(z3.UGE(e, a), z3.ULE(e, b)) for a, b in ranges]))
        return mkbool(z3.And(*cs)) if cs else True

    def isdigit(self): return self._allin([(48, 57)])
    isdecimal = isnumeric = isdigit
    def isalpha(self): return self._allin([(65, 90), (97, 122)])
    def isalnum(self): return self._allin([(48, 57), (65, 90), (97, 122)])
    def isspace(self): return self._allin([(9, 13), (32, 32)] + ([(28, 31)] if isinstance(self, SymStr) else []))
    def isascii(self):
        cs = [z3.ULT(e, 128) for e in self.es if not isinstance(e, int)]
        if any(isinstance(e, int) and e > 127 for e in self.es):
            return False
        return mkbool(z3.And(*cs)) if cs else True
    def isprintable(self): return self._allin([(32, 126)]) if self.es else True
    def isupper(self):
        return conj(self._any(65, 90), neg(self._any(97, 122)))
    def islower(self):
        return conj(self._any(97, 122), neg(self._any(65, 90)))
    def _any(self, a, b):
        return disj(*[a <= e <= b if isinstance(e, int) else mkbool(z3.And(z3.UGE(e, a), z3.ULE(e, b))) for e in self.es]) if self.es else False

    def splitlines(self, keepends=False):
        raise _eng.Unsupported("splitlines")

    def translate(self, table):
        out = []
        if not isinstance(table, dict) or self.W == 8:
            raise _eng.Unsupported("translate")
        simple = all(isinstance(v, int) or (isinstance(v, str) and len(v) == 1) for v in table.values())
        if not simple:
            raise _eng.Unsupported("translate")
        for e in self.es:
            if isinstance(e, int):
                v = table.get(e, e)
                out.append(ord(v) if isinstance(v, str) else v)
                continue
            r = e
            for k, v in table.items():
                v = ord(v) if isinstance(v, str) else v
                r = z3.If(e == k, z3.BitVecVal(v, self.W), r)
            out.append(simp(r))
        return SymStr(out).native()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self.of_es(list(self.es))

    def toint(self, base=10):
        """int(self, base): splits on digit validity."""
        s = self.strip()
        if not isinstance(s, SymSeq):
            return int(s, base)
        es = list(s.es)
        sign = 1
        if es and bool(self._inset(es[0], (43, 45))):
            if bool(self._inset(es[0], (45,))):
                sign = -1
            es = es[1:]
        if base in (16, 0) and len(es) >= 2 and bool(eqel(es[0], 48)) and bool(self._inset(es[1], (88, 120))):
            if base == 0:
                base = 16
            es = es[2:]
            if es and bool(eqel(es[0], 95)):
                es = es[1:]
        elif base == 2 and len(es) >= 2 and bool(eqel(es[0], 48)) and bool(self._inset(es[1], (66, 98))):
            es = es[2:]
            if es and bool(eqel(es[0], 95)):
                es = es[1:]
        if base == 0:
            raise _eng.Unsupported("int base 0")
        if not es:
            raise ValueError("invalid literal for int()")
        k = 0       # leading zeros before a literal digit count for nothing
        while k + 1 < len(es) and isinstance(es[k], int) and es[k] == 48 and isinstance(es[k + 1], int) and 48 <= es[k + 1] <= 57:
            k += 1
        es = es[k:]
        # underscores allowed singly between digits
        ds = []
        for i, e in enumerate(es):
            if bool(eqel(e, 95)):
                if i == 0 or i == len(es) - 1 or bool(eqel(es[i - 1], 95)):
                    raise ValueError("invalid literal for int()")
                continue
            ds.append(e)
        ok = [isdig(e, base, self.W) for e in ds]
        if not bool(conj(*ok)):
            if isinstance(self, SymStr):
                for e in ds:
                    if not isinstance(e, int) and bool(mkbool(z3.UGE(e, 128))):
                        raise _eng.Unsupported("int() of non-ascii digits")
            raise ValueError("invalid literal for int()")
        n = len(ds)
        hi = base ** n - 1
        w = width_for(0, hi)
        if base in (2, 16):
            k = 4 if base == 16 else 1
            parts = [z3.Extract(k - 1, 0, digval(e, self.W)) for e in ds]
            v = z3.Concat(*([z3.BitVecVal(0, 1)] + parts))
            r = mkint(v, 0, hi)
        else:
            v = z3.BitVecVal(0, w)
            for e in ds:
                d = digval(e, self.W)
                d = z3.ZeroExt(w - d.size(), d) if d.size() < w else z3.Extract(w - 1, 0, d)
                v = v * base + d
            r = mkint(v, 0, hi)
        return -r if sign < 0 else r


def eqel(e, v):
    return e == v if isinstance(e, int) else mkbool(e == v)


def isdig(e, base, w):
    rs = [(48, min(57, 47 + base))]
    if base > 10:
        rs += [(65, 54 + base), (97, 86 + base)]
    if isinstance(e, int):
        return any(a <= e <= b for a, b in rs)
    return mkbool(z3.Or(*[z3.And(z3.UGE(e, a), z3.ULE(e, b)) for a, b in rs]))


def digval(e, w):
    """8 bit value of digit char"""
    e = el(e, w)
    e = z3.Extract(7, 0, e) if w > 8 else e
    return simp(z3.If(z3.ULE(e, 57), e - 48, z3.If(z3.ULE(e, 90), e - 55, e - 87)))


class SymBytes(SymSeq):
    __slots__ = ()
    W = BW

    @classmethod
    def of(cls, x):
        if isinstance(x, (SymBytes,)):
            return x.es
        if isinstance(x, (bytes, bytearray, memoryview)):
            return list(bytes(x))
        return None

    @staticmethod
    def mk(es):
        return bytes(es)

    def new(self, es):
        return SymBytes(es).native()

    def of_es(self, es):
        return SymBytes(es)

    def item(self, e):
        if isinstance(e, int):
            return e
        return SymInt(z3.ZeroExt(1, e), 0, 255)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        out, i, es = [], 0, self.es
        if enc in ("latin-1", "latin1", "iso-8859-1"):
            return SymStr([e if isinstance(e, int) else z3.ZeroExt(CW - 8, e) for e in es]).native()
        if enc not in ("utf-8", "utf8", "ascii"):
            raise _eng.Unsupported("decode " + encoding)

        def bad(k):
            if enc == "ascii":
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range")
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid byte")

        def rng(e, a, b):
            return a <= e <= b if isinstance(e, int) else bool(mkbool(z3.And(z3.UGE(e, a), z3.ULE(e, b))))
        # one split on the common case: all ascii
        allascii = self.isascii()
        if bool(allascii):
            return SymStr([e if isinstance(e, int) else simp(z3.ZeroExt(CW - 8, e)) for e in es]).native()
        if enc == "ascii" or errors != "strict":
            if errors != "strict":
                raise _eng.Unsupported("decode errors=" + errors)
            bad(0)
        while i < len(es):
            e = es[i]
            if rng(e, 0, 127):
                out.append(e if isinstance(e, int) else z3.ZeroExt(CW - 8, e))
                i += 1
                continue
            x = lambda k: z3.ZeroExt(CW - 8, el(es[k], 8))
            if rng(e, 0xC2, 0xDF):
                if i + 1 >= len(es) or not rng(es[i + 1], 0x80, 0xBF):
                    bad(i)
                out.append(simp(((x(i) & 0x1F) << 6) | (x(i + 1) & 0x3F)))
                i += 2
            elif rng(e, 0xE0, 0xEF):
                lo, hi = 0x80, 0xBF
                if rng(e, 0xE0, 0xE0):
                    lo = 0xA0
                elif rng(e, 0xED, 0xED):
                    hi = 0x9F
                if i + 2 >= len(es) or not rng(es[i + 1], lo, hi) or not rng(es[i + 2], 0x80, 0xBF):
                    bad(i)
                out.append(simp(((x(i) & 0x0F) << 12) | ((x(i + 1) & 0x3F) << 6) | (x(i + 2) & 0x3F)))
                i += 3
            elif rng(e, 0xF0, 0xF4):
                lo, hi = 0x80, 0xBF
                if rng(e, 0xF0, 0xF0):
                    lo = 0x90
                elif rng(e, 0xF4, 0xF4):
                    hi = 0x8F
                if i + 3 >= len(es) or not rng(es[i + 1], lo, hi) or not rng(es[i + 2], 0x80, 0xBF) or not rng(es[i + 3], 0x80, 0xBF):
                    bad(i)
                out.append(simp(((x(i) & 0x07) << 18) | ((x(i + 1) & 0x3F) << 12) | ((x(i + 2) & 0x3F) << 6) | (x(i + 3) & 0x3F)))
                i += 4
            else:
                bad(i)
        return SymStr(out).native()

    def tobytes(self):
        return self.native()

    def hex(self):
        out = []
        for e in self.es:
            e = el(e, 8)
            out.append(digit_char(z3.Extract(7, 4, e)))
            out.append(digit_char(z3.Extract(3, 0, e)))
        return SymStr(out).native()

    def release(self):
        pass

    def toreadonly(self):
        return self

    @property
    def nbytes(self):
        return len(self.es)

    def __str__(self):
        return "<SymBytes%d>" % len(self.es)
    __repr__ = __str__


class SymByteArray(SymBytes):
    """Mutable."""
    __slots__ = ()
    __hash__ = None

    def native(self):
        return self

    def __getitem__(self, i):
        r = SymBytes.__getitem__(self, i)
        if isinstance(i, slice):
            return SymByteArray(SymBytes.of(r))
        return r

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            self.es[i] = list(SymBytes.of(v))
        else:
            self.es[i.__index__()] = v if isinstance(v, int) else norm(simp(z3.Extract(7, 0, sext(v.e, 9))))

    def __delitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            del self.es[i]
        else:
            del self.es[i.__index__()]

    def __add__(self, o):
        oes = self.of(o)
        return NotImplemented if oes is None else SymByteArray(self.es + list(oes))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, o):
        oes = self.of(o)
        if oes is None:
            oes = [x if isinstance(x, int) else simp(z3.Extract(7, 0, sext(x.e, 9))) for x in o]
        self.es.extend(oes)

    def append(self, v):
        self.es.append(v if isinstance(v, int) else norm(simp(z3.Extract(7, 0, sext(v.e, 9)))))

    def clear(self):
        self.es.clear()

    def pop(self, i=-1):
        return self.item(self.es.pop(i))

    def copy(self):
        return SymByteArray(list(self.es))

    def __copy__(self):
        return self.copy()


class SymStr(SymSeq):
    __slots__ = ()
    W = CW

    @classmethod
    def of(cls, x):
        if isinstance(x, SymStr):
            return x.es
        if isinstance(x, str):
            return [ord(c) for c in x]
        return None

    @staticmethod
    def mk(es):
        return "".join(map(chr, es))

    def item(self, e):
        return SymStr([e]).native()

    def __iter__(self):
        for e in list(self.es):
            yield SymStr([e]).native()

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc not in ("utf-8", "utf8", "ascii", "latin-1"):
            raise _eng.Unsupported("encode " + encoding)
        if bool(self.isascii()):
            return SymBytes([e if isinstance(e, int) else simp(z3.Extract(7, 0, e)) for e in self.es]).native()
        if enc == "ascii":
            raise UnicodeEncodeError("ascii", "\xff", 0, 1, "ordinal not in range")
        if enc == "latin-1":
            raise _eng.Unsupported("latin-1 encode")
        out = []
        for e in self.es:
            if isinstance(e, int):
                out += list(chr(e).encode("utf-8"))
                continue
            lo = lambda sh, mask, tag: simp(z3.Extract(7, 0, (z3.LShR(e, sh) & mask) | tag))
            if bool(mkbool(z3.ULT(e, 0x80))):
                out.append(simp(z3.Extract(7, 0, e)))
            elif bool(mkbool(z3.ULT(e, 0x800))):
                out += [lo(6, 0x1F, 0xC0), lo(0, 0x3F, 0x80)]
            elif bool(mkbool(z3.ULT(e, 0x10000))):
                if bool(mkbool(z3.And(z3.UGE(e, 0xD800), z3.ULE(e, 0xDFFF)))):
                    raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                out += [lo(12, 0x0F, 0xE0), lo(6, 0x3F, 0x80), lo(0, 0x3F, 0x80)]
            else:
                out += [lo(18, 0x07, 0xF0), lo(12, 0x3F, 0x80), lo(6, 0x3F, 0x80), lo(0, 0x3F, 0x80)]
        return SymBytes(out).native()

    def format(self, *a, **k):
        raise _eng.Unsupported("format on symbolic template")

    def __str__(self):
        return "<SymStr%d>" % len(self.es)
    __repr__ = __str__

    def __format__(self, spec):
        raise TypeError("format of SymStr outside instrumented code")
