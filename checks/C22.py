"""The real LMDBer (on the stand-in store) and the real WebDBer against a plain model: contents built by real calls with symbolic
ordinals under neighbouring keys, then one further call with symbolic ordinal, whose result and after-effect must be the model's."""
import functools
from keri.db.dbing import LMDBer
from keri.db.webdbing import WebDBer

MAX = (1 << 128) - 1


class Handle(dict):
    syncs = 0

    async def sync(self):
        self.syncs += 1


def run(co):
    try:
        co.send(None)
    except StopIteration as ex:
        return ex.value
    raise RuntimeError("coroutine waits")


class Lm:
    def __init__(self, dup=False):
        self.db = LMDBer(name="vt", temp=True, reopen=True)
        self.sub = self.db.env.open_db(key=b"t.", dupsort=dup)
        self.other = self.db.env.open_db(key=b"u.", dupsort=dup)

    def again(self):
        pass


class Web:
    def __init__(self, dup=False):
        self.h = {}
        self.again(dup)

    async def opener(self, ns):
        return self.h.setdefault(ns, Handle())

    def again(self, dup=False):
        """saved and opened anew"""
        if hasattr(self, "db"):
            run(self.db.flush())
        self.db = run(WebDBer.open("vt", ["t.", "u."], storageOpener=self.opener))
        self.sub = self.db.env.open_db(b"t.", dupsort=dup)
        self.other = self.db.env.open_db(b"u.", dupsort=dup)


def b(v):
    return bytes(v) if isinstance(v, (memoryview, bytearray)) else v


def norm(r):
    if r is None or isinstance(r, (bool, int)):
        return r
    if isinstance(r, tuple):
        return tuple(b(x) for x in r)
    if isinstance(r, (bytes, memoryview)):
        return b(r)
    return [norm(x) for x in r]


class Model:
    """{(key, ordinal): [(insertion number, value)]}, kept in the order of key + separator, then ordinal"""

    def __init__(self, sep, isset):
        self.e, self.sep, self.isset = [], sep, isset          # e: [key, on, [(ion, val)]]

    def at(self, k, on):
        for x in self.e:
            if x[0] == k and x[1] == on:
                return x

    def need(self, k, on):
        x = self.at(k, on)
        if x is None:
            x = [k, on, []]
            i = 0
            while i < len(self.e) and self.less(self.e[i][0], self.e[i][1], k, on):
                i += 1
            self.e.insert(i, x)
        return x

    def less(self, k0, o0, k1, o1):
        return o0 < o1 if k0 == k1 else k0 + self.sep < k1 + self.sep

    def clean(self):
        self.e = [x for x in self.e if x[2]]

    def add(self, k, on, vals):
        x = self.need(k, on)
        r = False
        for v in vals:
            if v not in [w for _, w in x[2]]:
                x[2].append((x[2][-1][0] + 1 if x[2] else 0, v))
                r = True
        self.clean()
        return r

    def pin(self, k, on, vals):
        self.need(k, on)[2] = []
        return self.add(k, on, vals)

    def rem(self, k, on, val=None):
        x = self.at(k, on)
        if x is None:
            return False
        n = len(x[2])
        x[2] = [] if val is None else [(i, w) for i, w in x[2] if w != val]
        r = n != len(x[2])
        self.clean()
        return r

    def nexton(self, k):
        o = [x[1] for x in self.e if x[0] == k]
        return o[-1] + 1 if o else 0

    def remall(self, k, on):
        gone = [x for x in self.e if not k or (x[0] == k and x[1] >= on)]
        self.e = [x for x in self.e if not any(x is g for g in gone)]
        return bool(gone)

    def vals(self, k, on, ion=0):
        x = self.at(k, on)
        return [v for i, v in x[2] if i >= ion] if x else []

    def items(self, k=b"", on=0):
        return [(x[0], x[1], v) for x in self.e if not k or (x[0] == k and x[1] >= on) for _, v in x[2]]

    def lasts(self, k=b"", on=0):
        return [(x[0], x[1], x[2][-1][1]) for x in self.e if not k or (x[0] == k and x[1] >= on)]

    def back(self, k=b"", on=None, last=False):
        out = []
        for x in reversed(self.e):
            if k and (x[0] != k or (on is not None and x[1] > on)):
                continue
            for _, v in list(reversed(x[2]))[:1 if last else None]:
                out.append((x[0], x[1], v))
        return out

    def top(self, t):
        return [(x[0], x[1], v) for x in self.e if (x[0] + self.sep).startswith(t) for _, v in x[2]]


KEYS = [b"A", b"A-", b"A0", b"AB", b"B", b"0"]
V = [b"a", b"bb", b"c", b""]


def start(be, fam, sep):
    e = {"lm": Lm, "web": Web}[be](dup="Dup" in fam)
    return e, Model(b"" if fam == "IoDup" else sep, fam != "On")


class Calls:
    """one method per operation: does it on the store and on the model and returns both results"""

    def __init__(self, e, m, fam, sep):
        self.e, self.m, self.fam, self.sep = e, m, fam, sep
        self.kw = {} if fam in ("IoDup",) else dict(sep=sep)

    def do(self, name, *pa, **kw):
        try:
            r = getattr(self.e.db, name)(self.e.sub, *pa, **kw, **({} if name in ("remTop", "cntTop", "cntAll", "getTopItemIter") else self.kw))
            return norm(r)
        except ValueError as ex:
            return "ValueError"

    # ordinal keyed single values
    def put(self, k, on, v):
        r = self.do("putOnVal", k, on, v)
        return r, (False if not k or self.m.at(k, on) else self.m.add(k, on, [v]))

    def pinv(self, k, on, v):
        return self.do("pinOnVal", k, on, v), (self.m.pin(k, on, [v]) if k else False)

    def append(self, k, v):
        r = self.do("appendOnVal", k, v)
        o = self.m.nexton(k)
        if not k or o > MAX:
            return r, "ValueError"
        self.m.add(k, o, [v])
        return r, o

    def item(self, k, on):
        v = self.m.vals(k, on)
        return self.do("getOnItem", k, on), ((k, on, v[0]) if v else None)

    def get(self, k, on):
        v = self.m.vals(k, on)
        return self.do("getOnVal", k, on), (v[0] if v else None)

    def rem(self, k, on):
        return self.do("remOn", k, on), self.m.rem(k, on)

    def remall(self, k, on):
        return self.do("remOnAll", k, on), self.m.remall(k, on)

    def cnt(self, k, on):
        return self.do("cntOnAll", k, on), len(self.m.items(k, on))

    def all(self, k, on):
        return self.do("getOnAllItemIter", k, on), self.m.items(k, on)

    def top(self, t):
        return self.do("getOnTopItemIter", t), self.m.top(t)

    # insertion ordered sets, plain key or key and ordinal
    def _n(self, f):
        return f % (self.fam if self.fam != "OnIoSet" else "OnIoSet")

    def sput(self, k, on, vs):
        r = self.do("put%sVals" % self.fam, k, vals=vs, **self.on(on))
        return r, (self.m.add(k, on, vs) if k and vs else False)

    def on(self, on):
        return dict(on=on) if self.fam.startswith("On") else {}

    def spin(self, k, on, vs):
        r = self.do("pin%sVals" % self.fam, k, vals=vs, **self.on(on))
        return r, (self.m.pin(k, on, vs) if k and vs else False)

    def sadd(self, k, on, v):
        r = self.do("add%sVal" % self.fam, k, val=v, **self.on(on))
        return r, (self.m.add(k, on, [v]) if k and v is not None else False)

    def sappend(self, k, vs):
        r = self.do("append%sVals" % self.fam, k, vs)
        o = self.m.nexton(k)
        if not k or not vs or o > MAX:
            return r, "ValueError"
        self.m.add(k, o, vs)
        return r, o

    def sget(self, k, on, ion):
        r = self.do("get%sItemIter" % self.fam, k, ion=ion, **self.on(on))
        return r, [self.t(k, on, v) for v in self.m.vals(k, on, ion)]

    def t(self, k, on, v):
        return (k, on, v) if self.fam.startswith("On") else (k, v)

    def slast(self, k, on):
        r = self.do("get%sLastItem" % self.fam, k, **self.on(on))
        v = self.m.vals(k, on)
        return r, (self.t(k, on, v[-1]) if v else ())

    def srem(self, k, on, v):
        return self.do("rem%sVal" % self.fam, k, val=v, **self.on(on)), self.m.rem(k, on, v) if k else False

    def scnt(self, k, on, ion):
        return self.do("cnt%s" % self.fam, k, ion=ion, **self.on(on)), len(self.m.vals(k, on, ion))

    def stop(self, t):
        r = self.do("getOnTopIoSetItemIter" if self.fam == "OnIoSet" else "getTopIoSetItemIter", t)
        return r, [self.t(*x) for x in self.m.top(t)]

    def slasts(self, k):
        r = self.do("getIoSetLastItemIterAll", k)
        ks = [x for x in self.m.lasts() if not k or x[0] + self.sep >= k + self.sep]
        return r, [self.t(*x) for x in ks]

    def sall(self, k, on):
        return self.do("getOnAllIoSetItemIter", k, on), self.m.items(k, on)

    def salllast(self, k, on):
        return self.do("getOnAllIoSetLastItemIter", k, on), self.m.lasts(k, on)

    def sback(self, k, on):
        return self.do("getOnAllIoSetItemBackIter", k, on), self.m.back(k, on)

    def sbacklast(self, k, on):
        return self.do("getOnAllIoSetLastItemBackIter", k, on), self.m.back(k, on, last=True)

    def sremall(self, k, on):
        return self.do("remOnAllIoSet", k, on), self.m.remall(k, on)

    def scntall(self, k, on):
        return self.do("cntOnAllIoSet", k, on=on), len(self.m.items(k, on))

    # insertion ordered duplicates
    def dput(self, k, on, vs):
        if self.fam == "IoDup":
            return self.do("putIoDupVals", k, vs), (self.m.add(k, on, vs) if k and vs else False)
        return self.do("putOnIoDupVals", k, on, vs), (self.m.add(k, on, vs) if k and vs else False)

    def dadd(self, k, on, v):
        if self.fam == "IoDup":
            return self.do("addIoDupVal", k, v), (self.m.add(k, on, [v]) if k else False)
        return self.do("addOnIoDupVal", k, on, v), (self.m.add(k, on, [v]) if k else False)

    def dappend(self, k, v):
        r = self.do("appendOnIoDupVal", k, v)
        o = self.m.nexton(k)
        if not k or o > MAX:
            return r, "ValueError"
        self.m.add(k, o, [v])
        return r, o

    def dvals(self, k, on):
        r = self.do("getIoDupVals", k) if self.fam == "IoDup" else self.do("getOnIoDupVals", k, on)
        return r, self.m.vals(k, on)

    def dget(self, k, on, ion):
        r = self.do("getIoDupItemIter", k, ion=ion) if self.fam == "IoDup" else self.do("getOnIoDupItemIter", k, on, ion)
        return r, [self.t(k, on, v) for v in self.m.vals(k, on, ion)]

    def dlast(self, k, on):
        r = self.do("getIoDupValLast", k) if self.fam == "IoDup" else self.do("getOnIoDupLast", k, on)
        v = self.m.vals(k, on)
        return r, (v[-1] if v else None)

    def drems(self, k, on):
        r = self.do("delIoDupVals", k) if self.fam == "IoDup" else self.do("delOnIoDups", k, on)
        return r, self.m.rem(k, on)

    def drem(self, k, on, v):
        r = self.do("delIoDupVal", k, v) if self.fam == "IoDup" else self.do("delOnIoDupVal", k, on, v)
        return r, self.m.rem(k, on, v)

    def dcnt(self, k, on):
        r = self.do("cntIoDups", k) if self.fam == "IoDup" else self.do("cntOnIoDups", k, on)
        return r, len(self.m.vals(k, on))

    def dtop(self, t):
        r = self.do("getTopIoDupItemIter" if self.fam == "IoDup" else "getOnTopIoDupItemIter", t)
        return r, [self.t(*x) for x in self.m.top(t)]

    def dall(self, k, on):
        return self.do("getOnIoDupItemIterAll", k, on), self.m.items(k, on)

    def dlasts(self, k, on):
        return self.do("getOnIoDupLastItemIter", k, on), self.m.lasts(k, on)

    def dback(self, k, on):
        return self.do("getOnIoDupItemBackIter", k, on), self.m.back(k, on if k else None)

    # whole branches
    def rtop(self, t):
        r = self.do("remTop", t)
        n = len(self.m.top(t))
        self.m.e = [x for x in self.m.e if not (x[0] + self.m.sep).startswith(t)]
        return r, n > 0

    def ctop(self, t):
        return self.do("cntTop", t), len(self.m.top(t))

    def call(self):
        return self.do("cntAll"), len(self.m.items())


def whole(c):
    f = c.fam
    if f == "On":
        return [c.all(b"", 0)]
    if f == "IoSet":
        return [c.stop(b""), c.slasts(b"")]
    if f == "OnIoSet":
        return [c.sall(b"", 0), c.salllast(b"", 0), c.sback(b"", None), c.sbacklast(b"", None)]
    if f == "IoDup":
        return [c.dtop(b"")]
    return [c.dall(b"", 0), c.dlasts(b"", 0), c.dback(b"", 0)]


ADD = dict(On="put", IoSet="sput", OnIoSet="sput", IoDup="dput", OnIoDup="dput")


def store(ctx, be, fam, build, op, args, sep=b".", high=False, wide=17):
    """build: keys under which values go at symbolic ordinals"""
    e, m = start(be, fam, sep)
    c = Calls(e, m, fam, sep)
    lo = MAX - 2 if high else 0
    n = [0]

    def num(tag):
        if not fam.startswith("On"):
            return 0
        if high:
            return ctx.choose(tag, [MAX - 2, MAX - 1, MAX]) if be == "web" else lo + ctx.integer(tag, 0, 2)
        if be == "web":         # its keys are hashed, hence told apart in any case
            return ctx.choose(tag, [0, 15, 16, 17] if tag == "on" else [15, 16] if len(build) > 2 else [3, 15, 16])
        return ctx.integer(tag, 0, wide)

    def same(r, tag):
        ctx.check(r[0] == r[1], tag, lambda: (r, m.e))
    for j, (k, vs) in enumerate(build):
        on = num("o%d" % j)
        same(getattr(c, ADD[fam])(k, on, vs if ADD[fam] != "put" else vs[0]), "result of building")
    pa = []
    for a in args:
        if a == "on":
            pa.append(num("on"))
        elif a == "on?":
            pa.append(None if ctx.boolean("none") else num("on"))
        elif a == "ion":
            pa.append(ctx.integer("ion", 0, 4))
        elif a == "k":
            pa.append(ctx.choose("k", (KEYS if wide > 17 else KEYS[:1] + KEYS[3:4] + KEYS[5:]) + ([] if (be, op) == ("web", "put") else [b""])))
        elif a == "t":
            pa.append(ctx.choose("t", [b"", b"A", b"A" + sep, b"A-", b"AB", b"C"]))
        elif a == "v":
            pa.append(ctx.choose("v", V[:3]))
        elif a == "v?":
            pa.append(ctx.choose("v", [None, b"a", b"bb", b"x"]))
        elif a == "v0":
            pa.append(ctx.choose("v", V))
        elif a == "vs":
            pa.append(ctx.choose("vs", [[b"a"], [b"c", b"a", b"c"], [b"x", b"bb", b"y"], []]))
    same(getattr(c, op)(*pa), "result of " + op)
    for r in whole(c):
        same(r, "content afterwards")
    try:
        o = list(e.db.getTopItemIter(e.other, b""))
    except StopIteration:
        o = None
    ctx.check(o == [], "another store changed")
    if be == "web":
        e.again("Dup" in fam)
        for r in whole(c):
            same(r, "content saved and loaded")
    ctx.reach("done")


def two(ctx, be, fam, op1, op2, sep=b"."):
    """removals and additions in turn keep the insertion order"""
    e, m = start(be, fam, sep)
    c = Calls(e, m, fam, sep)
    k = b"A"

    def same(r, tag):
        ctx.check(r[0] == r[1], tag, lambda: (r, m.e))
    add = getattr(c, ADD[fam])
    same(add(b"A-", 3, [b"a"]), "put")
    same(add(k, 3, [b"a", b"bb", b"c"]), "put")
    same(add(b"AB", 3, [b"c"]), "put")
    for j, op in enumerate((op1, op2, op1)):
        v = ctx.choose("v%d" % j, [b"a", b"bb", b"c", b"d"])
        f = getattr(c, op)
        same(f(k, 3, v) if op in ("srem", "drem", "sadd", "dadd") else f(k, 3, [v, b"e"]), "result")
        for r in whole(c):
            same(r, "content afterwards")
        g = c.sget if fam.endswith("Set") else c.dget
        if j == 2:
            same(g(k, 3, ctx.integer("ion", 0, 5)), "values from an insertion number on")
    ctx.reach("done")


def plain(ctx, be, op):
    """plain keys and values, one store of two"""
    e = {"lm": Lm, "web": Web}[be]()
    m = {}
    db = e.db
    k = [ctx.choose("k%d" % j, [b"a", b"a.", b"a.b", b"b"]) for j in range(2)]
    for j in range(2):
        ctx.check(db.putVal(e.sub, k[j], b"v%d" % j) == (k[j] not in m), "put")
        m.setdefault(k[j], b"v%d" % j)
    q = ctx.choose("q", [b"a", b"a.", b"a.b", b"b", b"c"])
    if op == "set":
        ctx.check(db.setVal(e.sub, q, b"w") == True, "set")
        m[q] = b"w"
    elif op == "rem":
        ctx.check(db.remVal(e.sub, q) == (m.pop(q, None) is not None), "remove")
    elif op == "put":
        ctx.check(db.putVal(e.sub, q, b"w") == (q not in m), "put")
        m.setdefault(q, b"w")
    for x in (b"a", b"a.", b"a.b", b"b", b"c"):
        ctx.check(norm(db.getVal(e.sub, x)) == m.get(x), "get")
    ctx.check(norm(db.getTopItemIter(e.sub, q)) == sorted((x, v) for x, v in m.items() if x.startswith(q)), "items of a branch")
    ctx.check(db.cntAll(e.sub) == len(m) and db.cntTop(e.sub, q) == len([x for x in m if x.startswith(q)]), "count")
    ctx.check(db.getVal(e.other, b"a") is None and db.cntAll(e.other) == 0, "another store")
    if op == "trim":
        ctx.check(db.remTop(e.sub, q) == any(x.startswith(q) for x in m), "trim")
        m = {x: v for x, v in m.items() if not x.startswith(q)}
        ctx.check(norm(db.getTopItemIter(e.sub, b"")) == sorted(m.items()), "after trim")
    if be == "web":
        e.again()
        ctx.check(norm(e.db.getTopItemIter(e.sub, b"")) == sorted(m.items()), "content saved and loaded")
    ctx.reach("done")


OPS = dict(
    On=[("put", ("k", "on", "v0")), ("pinv", ("k", "on", "v0")), ("append", ("k", "v0")), ("item", ("k", "on")), ("get", ("k", "on")), ("rem", ("k", "on")),
        ("remall", ("k", "on")), ("cnt", ("k", "on")), ("all", ("k", "on")), ("top", ("t",)), ("rtop", ("t",)), ("ctop", ("t",)), ("call", ())],
    IoSet=[("sput", ("k", "on", "vs")), ("spin", ("k", "on", "vs")), ("sadd", ("k", "on", "v?")), ("sget", ("k", "on", "ion")), ("slast", ("k", "on")), ("srem", ("k", "on", "v?")),
           ("scnt", ("k", "on", "ion")), ("stop", ("t",)), ("slasts", ("k",)), ("rtop", ("t",)), ("ctop", ("t",))],
    IoDup=[("dput", ("k", "on", "vs")), ("dadd", ("k", "on", "v")), ("dvals", ("k", "on")), ("dget", ("k", "on", "ion")), ("dlast", ("k", "on")), ("drems", ("k", "on")), ("drem", ("k", "on", "v")),
           ("dcnt", ("k", "on")), ("rtop", ("t",))],
)
OPS["OnIoSet"] = [x for x in OPS["IoSet"] if x[0] not in ("slasts", "rtop")] + [("sappend", ("k", "vs")), ("sall", ("k", "on")), ("salllast", ("k", "on")), ("sback", ("k", "on?")), ("sbacklast", ("k", "on?")),
                                                                  ("sremall", ("k", "on")), ("scntall", ("k", "on"))]
OPS["OnIoDup"] = [x for x in OPS["IoDup"] if x[0] not in ("rtop",)] + [("dappend", ("k", "v")), ("dall", ("k", "on")), ("dlasts", ("k", "on")), ("dback", ("k", "on"))]
AB, S2 = [b"a", b"bb"], [b"a", b"c", b"bb"]
BUILDS = [[], [(b"A", S2)], [(b"A-", AB), (b"A", S2)], [(b"A", AB), (b"A", S2), (b"AB", AB)], [(b"A0", AB), (b"A", AB), (b"B", AB)]]
MORE = [[(b"A-", AB), (b"A", S2), (b"A", AB), (b"B", AB)], [(b"0", AB), (b"A", S2), (b"A0", AB), (b"A", AB)], [(b"A", S2), (b"A", AB), (b"A", [b"d"]), (b"B", AB)]]


def cases(tier):
    T = tier == "thorough"
    out = []

    def add(name, fn, weight=1, **p):
        out.append(dict(name=name, fn=fn, params=p, expect=["done"], weight=weight))
    for be in ("lm", "web"):
        for fam in ("On", "IoSet", "OnIoSet") + (("IoDup", "OnIoDup") if be == "lm" else ()):
            for op, args in OPS[fam]:
                for n, build in enumerate(BUILDS + (MORE if T else [])):
                    if be == "web" and n == 3 and not T and fam != "On":
                        build = build[:2]
                    add("%s-%s-%s-%d" % (be, fam, op, n), store, 1 + len(build) ** 2, be=be, fam=fam, build=build, op=op, args=args, wide=40 if T else 17)
                if fam.startswith("On"):
                    add("%s-%s-%s-high" % (be, fam, op), store, 3, be=be, fam=fam, build=[(b"A", S2), (b"B", AB)], op=op, args=args, high=True)
                if fam not in ("IoDup",):
                    add("%s-%s-%s-sep" % (be, fam, op), store, 3, be=be, fam=fam, build=[(b"A", S2), (b"AB", AB)], op=op, args=args, sep=b"|")
            if fam != "On":
                x = "s" if fam.endswith("Set") else "d"
                for a, bb in ((x + "rem", x + "add"), (x + "rem", x + "put"), (x + "add", x + "rem")):
                    add("%s-%s-turns-%s-%s" % (be, fam, a, bb), two, 2, be=be, fam=fam, op1=a, op2=bb)
        for op in ("set", "rem", "put", "trim"):
            add("%s-plain-%s" % (be, op), plain, be=be, op=op)
    return out


BOUNDS = "up to 3 (thorough 4) groups of values under neighbouring keys, ordinals 0..17, thorough 0..40 (WebDBer: one of 0, 3, 15, 16, 17) or at the largest ordinal, then one call with any ordinal, any of 3 keys (thorough 6) or none, any of several values or value lists; three removals and additions in turn; two separators"
OUTSIDE = "keys of one store that differ in their number of parts; keys holding the separator; LMDB itself (replaced by a stand-in that keeps its documented contract); size limits of keys; WebDBer.putOnVal with an empty key, which its tests want stored and LMDBer refuses"
ASSUMPTIONS = ["the browser storage handle keeps what was synced"]
