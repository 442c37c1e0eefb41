"""Every typed store (subing, koming), of text, Base64 parts, primitives, concatenated primitives, messages, schemas, signers and
records in all serializations, filled by real calls with symbolic values at symbolic ordinals; then any one further call and every
way of reading. Oracle: C22's plain model of an ordered store, here of whole values under keys of several parts."""
from dataclasses import dataclass, field, asdict
from checks.kel import *
from checks.C22 import Model, MAX
from keri.db import subing, koming
from keri.db.dbing import LMDBer
from keri.core.coring import Number, Diger, Matter, Verfer, Kinds
from keri.core.scheming import Schemer, JSONSchema
from keri.core.signing import Signer
from keri.help import helping


@dataclass
class Inner:
    t: str = ""
    n: int = 0


@dataclass
class Rec:
    s: str = ""
    n: int = 0
    l: list = field(default_factory=list)
    i: Inner = field(default_factory=Inner)


ABC = "a\"é"


# ---- what goes in: (serialized, shown) of a value

def byte(ctx, n):
    return bytes([ctx.integer("d%d" % n, 0, 3) if n in (0, 3) else n])


def text(ctx, n):
    s = "a" + ctx.str_("s%d" % n, 1, "a.|é") if n in (0, 3) else ["", "a|", "é"][n]
    return s, s


def b64(ctx, n):
    v = (ctx.str_("u%d" % n, 1, "aB-"), "B")[:2 if n == 0 or n == 3 and ctx.boolean("two") else 1] if n in (0, 3) else [0, ("a",), ("a", "B", "_")][n]
    return v, v


def prim(ctx, n):
    v = Diger(raw=bytes(31) + byte(ctx, n), code=MtrDex.Blake3_256)
    return v, v.qb64


def cat(ctx, n):
    v = (Number(num=ctx.integer("n%d" % n, 0, 1) if n == 3 else n), Diger(raw=bytes(31) + byte(ctx, n), code=MtrDex.Blake3_256))
    return v, tuple(x.qb64 for x in v)


def msg(ctx, n):
    v = interact(nosaid(1), nosaid(2), sn=n + 1, **JSON)
    return v, v.raw


def schema(ctx, n):
    v = Schemer(sed={"$id": "", "type": "object", "n": n}, typ=JSONSchema(), code=MtrDex.Blake3_256)
    return v, v.raw


def record(ctx, n):
    v = Rec(s=ctx.str_("s%d" % n, 1, ABC) if n in (0, 3) else "s", n=ctx.integer("n%d" % n, -1, 0) if n == 3 else n, l=[n % 3, "x"], i=Inner(t="é", n=-(n % 3)))
    return v, v


def signer(ctx, n):
    v = Signer(raw=bytes([n]) * 32)
    return v, v.qb64


def shown(kind, v):
    if v is None:
        return None
    if kind in ("prim", "signer"):
        return v.qb64
    if kind == "cat":
        return tuple(x.qb64 for x in v)
    if kind in ("msg", "schema"):
        return v.raw
    return v


KINDS = dict(text=text, b64=b64, prim=prim, cat=cat, msg=msg, schema=schema, json=record, mgpk=record, cbor=record, signer=signer)
S = subing
CLASSES = dict(
    One=dict(text=S.Suber, b64=S.B64Suber, prim=S.CesrSuber, cat=S.CatCesrSuber, msg=S.SerderSuber, schema=S.SchemerSuber, json=koming.Komer, mgpk=koming.Komer, cbor=koming.Komer),
    On=dict(text=S.OnSuber, prim=S.CesrOnSuber),
    IoSet=dict(text=S.IoSetSuber, b64=S.B64IoSetSuber, prim=S.CesrIoSetSuber, cat=S.CatCesrIoSetSuber, msg=S.SerderIoSetSuber, json=koming.IoSetKomer, mgpk=koming.IoSetKomer, cbor=koming.IoSetKomer),
    OnIoSet=dict(text=S.OnIoSetSuber, b64=S.B64OnIoSetSuber),
    IoDup=dict(text=S.IoDupSuber, b64=S.B64IoDupSuber),
    OnIoDup=dict(text=S.OnIoDupSuber, b64=S.B64OnIoDupSuber),
    Dup=dict(text=S.DupSuber, prim=S.CesrDupSuber, cat=S.CatCesrDupSuber, json=koming.DupKomer, mgpk=koming.DupKomer),
)
KLAS = dict(prim=dict(klas=Diger), cat=dict(klas=(Number, Diger)), json=dict(klas=Rec, kind=Kinds.json), mgpk=dict(klas=Rec, kind=Kinds.mgpk), cbor=dict(klas=Rec, kind=Kinds.cbor))


class Store:
    """the real store, its neighbour of another name, and the model; every method returns (real, expected)"""

    def __init__(self, ctx, fam, kind, sep):
        self.ctx, self.fam, self.kind = ctx, fam, kind
        self.calls = len(fam) + len(kind)
        self.db = LMDBer(name="vt", temp=True, reopen=True)
        cls = CLASSES[fam][kind]
        kw = dict(KLAS.get(kind, {}))
        if sep:
            kw["sep"] = sep
        self.sub = cls(db=self.db, subkey="t.", **kw)
        self.other = cls(db=self.db, subkey="u.", **kw)
        self.sep = sep or "."
        self.m = Model(b"" if fam in ("One", "Dup", "IoDup") else self.sep.encode(), True)
        self.raw = self.sub._ser
        self.two = fam in ("On", "OnIoSet", "OnIoDup")

    def key(self, k):
        return self.sep.join(k).encode()

    def parts(self, k):
        return tuple(k.decode().split(self.sep))

    def form(self, k):
        """a key in one of the forms taken, each operation another"""
        self.calls += 1
        f = self.calls % 4
        return [k, self.sep.join(k), self.key(k), [k[0].encode()] + list(k[1:])][f]

    def sh(self, v):
        return shown(self.kind, v)

    def order(self, vs):
        if self.fam != "Dup":
            return vs
        return [v for _, v in sorted(((bytes(self.raw(x)), x) for x in vs), key=lambda t: t[0])]

    def on(self, on):
        return dict(on=on) if self.two else {}


def readall(ctx, s, tag):
    """every way of reading the whole"""
    sub, m, t = s.sub, s.m, s.two
    P, sh = s.parts, s.sh
    items = [(P(k), o, v) for k, o, v in m.items()]
    row = (lambda k, o, v: (k, o, v)) if t else (lambda k, o, v: (k, v))
    want = [row(*x) for x in items]

    def eq(what, got, want):
        ctx.check(got == want, "%s: %s" % (tag, what), lambda: (got, want))
    eq("items", [x[:-1] + (sh(x[-1]),) for x in sub.getTopItemIter()], want)
    if s.fam != "Dup":
        try:
            full = list(sub.getFullItemIter())
        except Exception:
            if s.fam not in ("IoDup", "OnIoDup"):
                raise
            full = None
        if full is not None and s.fam in ("One",):
            eq("full items", [(k, sh(v)) for k, v in full], want)
        if s.fam in ("IoSet",):
            eq("full items", [(k[:-1], sh(v)) for k, v in full], want)
            eq("insertion order", [k[-1] for k, v in full], ["%032x" % i for x in m.e for i, _ in x[2]])
        if s.fam in ("On",):
            eq("full items", [(k[:-1], int(k[-1], 16), sh(v)) for k, v in full], want)
    if hasattr(sub, "cntAll"):
        eq("count", sub.cntAll(), len(want))
    if s.fam in ("One", "IoSet", "IoDup") or (s.fam == "Dup" and isinstance(sub, S.SuberBase)) or s.fam in ("OnIoSet", "OnIoDup"):
        eq("count", sub.cnt(), len(want))
    if t:
        eq("all items", [(k, o, sh(v)) for k, o, v in sub.getAllItemIter()], want)
        eq("all", [sh(v) for v in sub.getAllIter()], [x[-1] for x in want])
    if s.fam == "IoSet" and isinstance(sub, S.SuberBase):
        eq("last items", [(k, sh(v)) for k, v in sub.getLastItemIter()], [(P(k), v) for k, _, v in m.lasts()])
        eq("lasts", [sh(v) for v in sub.getLastIter()], [v for _, _, v in m.lasts()])
    if s.fam == "OnIoSet":
        eq("last items", [(k, o, sh(v)) for k, o, v in sub.getAllLastItemIter()], [(P(k), o, v) for k, o, v in m.lasts()])
        eq("lasts", [sh(v) for v in sub.getAllLastIter()], [v for _, _, v in m.lasts()])
        eq("back items", [(k, o, sh(v)) for k, o, v in sub.getAllItemBackIter()], [(P(k), o, v) for k, o, v in m.back()])
        eq("back", [sh(v) for v in sub.getAllBackIter()], [v for _, o, v in m.back()])
        eq("back last items", [(k, o, sh(v)) for k, o, v in sub.getAllLastItemBackIter()], [(P(k), o, v) for k, o, v in m.back(last=True)])
        eq("back lasts", [sh(v) for v in sub.getAllLastBackIter()], [v for _, o, v in m.back(last=True)])
    if s.fam == "OnIoDup":
        eq("last items", [(k, o, sh(v)) for k, o, v in sub.getLastItemIter()], [(P(k), o, v) for k, o, v in m.lasts()])
        eq("lasts", [sh(v) for v in sub.getLastIter()], [v for _, _, v in m.lasts()])
        eq("back items", [(k, o, sh(v)) for k, o, v in sub.getItemBackIter()], [(P(k), o, v) for k, o, v in m.back()])
        eq("back", [sh(v) for v in sub.getBackIter()], [v for _, o, v in m.back()])
    ctx.check(list(s.other.getTopItemIter()) == [], tag + ": another store changed")


def readkey(ctx, s, k, on, tag):
    """every way of reading what is under a key (and from an ordinal on)"""
    sub, m, sh, P = s.sub, s.m, s.sh, s.parts
    b = s.key(k)
    f = s.form(k)
    vs = m.vals(b, on)
    w = s.on(on)

    def eq(what, got, want):
        ctx.check(got == want, "%s: %s" % (tag, what), lambda: (got, want))
    one = s.fam in ("One", "On")
    if one:
        eq("get", sh(sub.get(f, **w)), vs[0] if vs else None)
        if s.kind in ("json", "mgpk", "cbor"):
            eq("getDict", sub.getDict(f), asdict(vs[0]) if vs else None)
    else:
        eq("get", [sh(v) for v in sub.get(f, **w)], s.order(vs))
        eq("getIter", [sh(v) for v in sub.getIter(f, **w)], s.order(vs))
        eq("getLast", sh(sub.getLast(f, **w)), s.order(vs)[-1] if vs else None)
        if s.fam in ("OnIoSet", "OnIoDup", "Dup", "IoSet", "IoDup"):
            eq("cnt", sub.cnt(f, **w), len(vs))
    if s.fam == "On":
        x = sub.getItem(f, on=on)
        eq("getItem", x and x[:2] + (sh(x[2]),), (P(b), on, vs[0]) if vs else None)
        eq("cnt", sub.cnt(f, on=on), len(m.items(b, on)))
    row = lambda v: (P(b), on, v) if s.two else (P(b), v)
    if hasattr(sub, "getItemIter"):
        ion = ctx.integer("ion", 0, 3)
        eq("getItemIter", [x[:-1] + (sh(x[-1]),) for x in sub.getItemIter(f, **w, ion=ion)], [row(v) for v in m.vals(b, on, ion)])
        eq("getIter", [sh(x) for x in sub.getIter(f, **w, ion=ion)], m.vals(b, on, ion))
    if s.fam in ("IoSet", "OnIoSet") and isinstance(sub, S.SuberBase):
        eq("getItem", [x[:-1] + (sh(x[-1]),) for x in sub.getItem(f, **w)], [row(v) for v in vs])
        x = sub.getLastItem(f, **w)
        eq("getLastItem", x and x[:-1] + (sh(x[-1]),), row(vs[-1]) if vs else ())
    if s.two:
        eq("cntAll", sub.cntAll(f, on=on), len(m.items(b, on)))
        eq("getAllItemIter", [(a, o, sh(v)) for a, o, v in sub.getAllItemIter(f, on=on)], [(P(a), o, v) for a, o, v in m.items(b, on)])
        eq("getAllIter", [sh(v) for v in sub.getAllIter(f, on=on)], [v for a, o, v in m.items(b, on)])
    if s.fam == "OnIoSet":
        eq("getAllLastItemIter", [(a, o, sh(v)) for a, o, v in sub.getAllLastItemIter(f, on=on)], [(P(a), o, v) for a, o, v in m.lasts(b, on)])
        eq("getAllItemBackIter", [(a, o, sh(v)) for a, o, v in sub.getAllItemBackIter(f, on=on)], [(P(a), o, v) for a, o, v in m.back(b, on)])
        eq("getAllLastItemBackIter", [(a, o, sh(v)) for a, o, v in sub.getAllLastItemBackIter(f, on=on)], [(P(a), o, v) for a, o, v in m.back(b, on, last=True)])
        eq("getAllBackIter", [sh(v) for v in sub.getAllBackIter(f)], [v for a, o, v in m.back(b)])
        eq("getAllLastIter", [sh(v) for v in sub.getAllLastIter(f, on=on)], [v for a, o, v in m.lasts(b, on)])
        eq("getAllLastBackIter", [sh(v) for v in sub.getAllLastBackIter(f, on=on)], [v for a, o, v in m.back(b, on, last=True)])
    if s.fam == "OnIoDup":
        eq("getLastItemIter", [(a, o, sh(v)) for a, o, v in sub.getLastItemIter(f, on=on)], [(P(a), o, v) for a, o, v in m.lasts(b, on)])
        eq("getLastIter", [sh(v) for v in sub.getLastIter(f, on=on)], [v for a, o, v in m.lasts(b, on)])
        eq("getItemBackIter", [(a, o, sh(v)) for a, o, v in sub.getItemBackIter(f, on=on)], [(P(a), o, v) for a, o, v in m.back(b, on)])
        eq("getBackIter", [sh(v) for v in sub.getBackIter(f, on=on)], [v for a, o, v in m.back(b, on)])


def readtop(ctx, s, tag):
    """branches: text of a key's start, or whole parts"""
    sub, m, sh = s.sub, s.m, s.sh
    t = ctx.choose("top", [("a",), ("a", ""), ("a", "b"), ("ab", ""), ("a", "b", ""), ("z",)])
    topive = ctx.boolean("topive").__bool__() if not s.two else False
    b = s.key(t) + (s.sep.encode() if topive and t[-1] else b"")
    kw = dict(topive=topive) if not s.two else {}
    want = [((s.parts(k), o, v) if s.two else (s.parts(k), v)) for k, o, v in m.top(b)]
    got = [x[:-1] + (sh(x[-1]),) for x in sub.getTopItemIter(t, **kw)]
    ctx.check(got == want, tag + ": items of a branch", lambda: (t, topive, got, want))
    if hasattr(sub, "cntTop"):
        ctx.check(sub.cntTop(t, **kw) == len(want), tag + ": count of a branch", lambda: (t, topive, want))
    return t, kw, b, want


KEYS = [("a", "b"), ("a", "bc"), ("ab", "b")]


def store(ctx, fam, kind, op, sep=None, deep=False):
    s = Store(ctx, fam, kind, sep)
    sub, m = s.sub, s.m
    mk = KINDS[kind]
    one = fam in ("One", "On")
    vals = [mk(ctx, n) for n in range(4)]
    put = []
    # filled
    fill = [(KEYS[1], 0, [0]), (KEYS[0], 1, [1] if one else [0, 1]), (KEYS[0], 2, [0]), (KEYS[2], 0, [2])] if s.two else [(KEYS[1], 0, [0]), (KEYS[0], 0, [1] if one else [1, 0]), (KEYS[2], 0, [2])]
    off = 0 if not s.two else ctx.integer("on", 0, 20) if deep or op in ("read", "append", "remall") else 15

    def eq(what, got, want):
        ctx.check(got == want, what, lambda: (got, want))
    for k, on, vs in fill:
        on = on + off if s.two and k == KEYS[0] else on
        b = s.key(k)
        if one:
            eq("result of put", sub.put(k, **s.on(on), val=vals[vs[0]][0]), m.add(b, on, [vals[vs[0]][1]]))
        elif fam == "Dup":
            sub.put(k, vals=[vals[v][0] for v in vs])
            m.add(b, on, [vals[v][1] for v in vs])
        else:
            eq("result of put", sub.put(k, **s.on(on), vals=[vals[v][0] for v in vs]), m.add(b, on, [vals[v][1] for v in vs]))
    k = ctx.choose("k", KEYS[:2] + [("a", "c")]) if op not in ("top", "trim") else KEYS[0]
    b = s.key(k)
    on = off + ctx.choose("don", [0, 1, 2, 3]) if s.two and op not in ("top", "append") else 0
    v, sv = vals[ctx.choose("v", [0, 1, 3])] if op in ("add", "append", "remval") or one and op in ("put", "pin") else vals[3]
    w = s.on(on)
    if op == "read":
        readall(ctx, s, "filled")
        readkey(ctx, s, k, on, "filled")
    elif op == "top":
        readtop(ctx, s, "filled")
    elif op == "put":
        if one:
            eq("result of put", sub.put(s.form(k), **w, val=v), False if m.at(b, on) else m.add(b, on, [sv]))
        else:
            vs = ctx.choose("vs", [[3, 1], [0, 0, 3], [2]])
            r = sub.put(s.form(k), **w, vals=[vals[x][0] for x in vs])
            x = m.add(b, on, [vals[x][1] for x in vs])
            if fam != "Dup":
                eq("result of put", r, x)
    elif op == "pin":
        if one:
            eq("result of pin", sub.pin(s.form(k), **w, val=v), m.pin(b, on, [sv]))
        else:
            vs = ctx.choose("vs", [[3, 1], [0, 0, 3], [2]])
            eq("result of pin", sub.pin(s.form(k), **w, vals=[vals[x][0] for x in vs]), m.pin(b, on, [vals[x][1] for x in vs]))
    elif op == "add":
        r = sub.add(s.form(k), **w, val=v)
        eq("result of add", r, m.add(b, on, [sv]))
    elif op == "append":
        r = sub.append(s.form(k), **(dict(vals=[v, vals[2][0]]) if fam == "OnIoSet" else dict(val=v)))
        o = m.nexton(b)
        m.add(b, o, [sv, vals[2][1]] if fam == "OnIoSet" else [sv])
        eq("result of append", r, o)
    elif op == "rem":
        eq("result of rem", sub.rem(s.form(k), **w), m.rem(b, on))
    elif op == "remval":
        eq("result of rem of a value", sub.rem(s.form(k), **w, val=v), m.rem(b, on, sv))
    elif op == "remall":
        eq("result of remAll", sub.remAll(s.form(k), on=on), m.remall(b, on))
    elif op == "trim":
        t = ctx.choose("top", [("a",), ("a", ""), ("a", "b"), ("ab", ""), ("a", "b", ""), ("z",), ""])
        topive = ctx.boolean("topive").__bool__() if t else False
        tb = (s.key(t) + (s.sep.encode() if topive and t[-1] else b"")) if t else b""
        n = len(m.top(tb))
        eq("result of trim", sub.trim(t, topive=topive), n > 0)
        m.e = [x for x in m.e if not (x[0] + m.sep).startswith(tb)]
    if op not in ("read", "top"):
        if fam != "Dup":
            readall(ctx, s, "after " + op)
        for q in KEYS:
            readkey1(ctx, s, q, off + 1 if s.two and q == KEYS[0] else 0, "after " + op)
    ctx.reach("done")


def readkey1(ctx, s, k, on, tag):
    w = s.on(on)
    vs = s.m.vals(s.key(k), on)
    if s.fam in ("One", "On"):
        ctx.check(s.sh(s.sub.get(k, **w)) == (vs[0] if vs else None), tag + ": get")
    else:
        got = [s.sh(v) for v in s.sub.get(k, **w)]
        if s.fam == "Dup":
            ctx.check(len(got) == len(vs) and all(v in got for v in vs), tag + ": values", lambda: (got, vs))
        else:
            ctx.check(got == vs, tag + ": values", lambda: (got, vs))


def signers(ctx):
    """seeds come back as the signers of the keys they are stored under"""
    db = LMDBer(name="vt", temp=True, reopen=True)
    pick = [ctx.boolean("t%d" % i).__bool__() for i in range(2)]
    sg = [Signer(raw=bytes([i + 1]) * 32, transferable=t) for i, t in enumerate(pick)]
    for sub in (S.SignerSuber(db=db, subkey="s."), S.CryptSignerSuber(db=db, subkey="c.")):
        for x in sg:
            ctx.check(sub.put(x.verfer.qb64, x) and not sub.put(x.verfer.qb64, sg[0]), "put")
        for x in sg:
            y = sub.get(x.verfer.qb64)
            ctx.check(y.qb64 == x.qb64 and y.verfer.qb64 == x.verfer.qb64, "signer of the key")
        ctx.check(sorted((k[-1], y.qb64, y.verfer.qb64) for k, y in sub.getTopItemIter()) == sorted((x.verfer.qb64, x.qb64, x.verfer.qb64) for x in sg), "signers")
        ctx.check(sub.pin(sg[0].verfer.qb64, sg[0]) and sub.rem(sg[1].verfer.qb64) and sub.get(sg[1].verfer.qb64) is None and sub.cntAll() == 1, "removed")
    ctx.reach("done")


OPS = dict(One=["read", "top", "put", "pin", "rem", "trim"], On=["read", "top", "put", "pin", "append", "rem", "remall"],
           IoSet=["read", "top", "put", "pin", "add", "rem", "remval", "trim"], OnIoSet=["read", "top", "put", "pin", "add", "append", "rem", "remval", "remall"],
           IoDup=["read", "top", "put", "pin", "add", "rem", "remval", "trim"], OnIoDup=["read", "top", "put", "pin", "add", "append", "rem", "remval"],
           Dup=["put", "pin", "add", "rem", "remval"])


def cases(tier):
    T = tier == "thorough"
    out = []
    for fam, kinds in CLASSES.items():
        for kind in kinds:
            for sep in (None, "|") + ((">",) if T else ()):
                for op in OPS[fam]:
                    if not T and sep and op != "read" and kind != "text":
                        continue
                    out.append(dict(name="%s-%s%s-%s" % (fam, kind, sep or "", op), fn=store, params=dict(fam=fam, kind=kind, op=op, sep=sep, deep=T), expect=["done"], weight=9 if fam in ("OnIoSet", "OnIoDup") else 3))
    out.append(dict(name="signers", fn=signers, params={}, expect=["done"], weight=1))
    return out


BOUNDS = ("every class of store, once with the usual and once with another separator; filled under three keys of two parts that are neighbours as text, with up to "
          "four values of which two are free in a byte or character (texts of up to two characters, records with nested records, lists, text with quotes and "
          "accents), at ordinals 0..20 and up; then any one of the calls that change it with any of three keys and values, keys given in four forms; all readings "
          "of whole, key, ordinal, insertion number and branch")
OUTSIDE = ("full reading of duplicates with the number that keeps their order; keys holding the separator or of varying number of parts; records with fields of other types; "
           "LMDB itself; sealing of signers (C26)")
ASSUMPTIONS = ["LMDB replaced by a stand-in that keeps its documented contract"]
